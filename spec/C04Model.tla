----------------------------- MODULE C04Model -----------------------------
(* Every small detection pattern; the sweep that labels groups agrees with  *)
(* the definition of connectedness.                                         *)
EXTENDS Integers, Sequences, TLC, Json, Segments
CONSTANTS MaxPix
VARIABLE c
Sizes == {<<nx, ny>> \in (1..5) \X (1..5) : nx * ny <= MaxPix}
Init == \E s \in Sizes : \E a \in [1..s[1]*s[2] -> BOOLEAN], n \in 1..3 : c = [nx |-> s[1], ny |-> s[2], above |-> a, npix |-> n]
Next == UNCHANGED c
Connected == LET g == Groups(c.above, c.nx) IN
  \A k \in 1..Len(g) : c.above[k] => {m \in 1..Len(g) : g[m] = g[k]} = Reach({k}, c.above, c.nx)
Emit == PrintT(<<"CASE", ToJson([nx |-> c.nx, ny |-> c.ny, npix |-> c.npix,
                                 above |-> [k \in 1..Len(c.above) |-> IF c.above[k] THEN 1 ELSE 0]])>>)
===========================================================================
