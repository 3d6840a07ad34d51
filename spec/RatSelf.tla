----------------------------- MODULE RatSelf -----------------------------
(* The Java code of module Rat agrees with the TLA+ definitions (copied to *)
(* module RatRef, which has no Java code) on all pairs of a small domain.  *)
EXTENDS Integers, Sequences, TLC, Rat
Ref == INSTANCE RatRef
D == {<<n, d>> : n \in -7..7, d \in 0..5}
VARIABLES a, b
J(p) == RQ(p[1], p[2])                       \* the Java value of a reference pair
P(p) == Ref!NormR(p[1], p[2])
Init == a \in D /\ b \in D
Next == UNCHANGED <<a, b>>
Agree ==
  LET x == P(a) y == P(b) jx == J(x) jy == J(y)
      Same(j, p) == RSame(j, J(p)) IN
  /\ Same(RAdd(jx, jy), Ref!RAdd(x, y))
  /\ Same(RSub(jx, jy), Ref!RSub(x, y))
  /\ Same(RMul(jx, jy), Ref!RMul(x, y))
  /\ Same(RDiv(jx, jy), Ref!RDiv(x, y))
  /\ Same(RMin(jx, jy), Ref!RMin(x, y))
  /\ Same(RMax(jx, jy), Ref!RMax(x, y))
  /\ Same(RAbs(jx), Ref!RAbs(x)) /\ Same(RNeg(jx), Ref!RNeg(x))
  /\ RLt(jx, jy) = Ref!RLt(x, y) /\ RLe(jx, jy) = Ref!RLe(x, y) /\ REq(jx, jy) = Ref!REq(x, y)
  /\ RSame(jx, jy) = Ref!RSame(x, y)
  /\ RIsNaN(jx) = Ref!RIsNaN(x) /\ RIsFin(jx) = Ref!RIsFin(x)
  /\ RIsInt(jx) = Ref!RIsInt(x)
  /\ RClose(jx, jy, RQ(1, 3), RQ(1, 2)) = Ref!RClose(x, y, <<1, 3>>, <<1, 2>>)
  /\ RClose(jx, jy, 0, 1) = Ref!RClose(x, y, <<0, 1>>, <<1, 1>>)
  /\ x[2] # 0 => RFloor(jx) = Ref!RFloor(x) /\ RRound(jx) = Ref!RRound(x)
  /\ Same(RSum(<<jx, jy, jx>>), Ref!RSum(<<x, y, x>>))
  /\ Same(RDot(<<jx, jy>>, <<jy, jx>>), Ref!RDot(<<x, y>>, <<y, x>>))
===========================================================================
