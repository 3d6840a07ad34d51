----------------------------- MODULE C23Model -----------------------------
(* Every placement of every small cutout on every small image.              *)
EXTENDS Integers, TLC, Json
CONSTANTS MaxIm, MaxT
VARIABLE c
Init == \E nx \in 1..MaxIm, ny \in 1..MaxIm : c = [nx |-> nx, ny |-> ny, d |-> [x0 |-> -4, x1 |-> MaxIm + 4, t |-> MaxT]]
Next == UNCHANGED c
Emit == PrintT(<<"CASE", ToJson(c)>>)
===========================================================================
