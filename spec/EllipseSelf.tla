---------------------------- MODULE EllipseSelf ----------------------------
(* The Java code of Covered agrees with its TLA+ definition (in EllipseRef), *)
(* and the pixel fractions add up to the area of the ellipse.               *)
EXTENDS Integers, Sequences, TLC, Rat, Ellipse
Ref == INSTANCE EllipseRef
VARIABLES s
Shapes == {Ell(RQ(k, 7), RQ(m, 4), RQ(a, 2), RMul(RQ(a, 2), RQ(q, 4)), RQ(t, 2)) : k \in 0..3, m \in 0..2, a \in {1, 3, 7}, q \in {1, 3, 4}, t \in -3..4}
Init == s \in Shapes
Next == UNCHANGED s
B == -5..6
Agree ==
  /\ \A i \in B, j \in B : RClose(Covered(s, i, j), Ref!Covered(s, i, j), 0, RMul(RQ(1, 1000000), RQ(1, 1000000)))
  /\ \A i \in B, j \in B : LET w == Covered(s, i, j) IN (~Touches(s, i, j) => RClose(w, 0, 0, RQ(1, 1000000000)))
  /\ RClose(RSum([k \in 1..144 |-> Covered(s, ((k - 1) \div 12) - 5, (k - 1) - 12 * ((k - 1) \div 12) - 5)]), RMul(RPi, RMul(s.a, s.b)), 0, RQ(1, 1000000000))
===========================================================================
