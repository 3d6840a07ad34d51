----------------------------- MODULE C03Model -----------------------------
(* Every combination of kinds of arguments of source photometry.            *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE c
Place == {"inside", "edge", "corner"}
Size == {"default", "odd", "even", "float", "beyond-frame"}
Bg == {"no", "clip-3", "clip", "bound", "unknown", "few-pixels"}
Err == {"none", "some", "nan", "int"}
Method == {"exact", "center", "subpixel"}
Image == {"float", "int", "ccd", "big-endian", "float32", "nan"}
Init == \E p \in Place, s \in Size, b \in Bg, e \in Err, m \in Method, i \in Image, k \in {0, 1} :
          /\ (i = "float32" => b = "no")
          /\ c = [place |-> p, size |-> s, bg |-> b, err |-> e, method |-> m, image |-> i, maskbg |-> k]
Next == UNCHANGED c
Emit == PrintT(<<"CASE", ToJson(c)>>)
===========================================================================
