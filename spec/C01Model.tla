----------------------------- MODULE C01Model -----------------------------
(* Every combination of the kinds of arguments of the photometry function.  *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE c
Centre == {"pixel-centre", "pixel-corner", "pixel-edge", "anywhere", "image-edge", "off-image"}
Method == {"exact", "center", "subpixel"}
Mask == {"none", "all-true", "some-false", "one-true", "nan-masked"}
Err == {"none", "some", "nan-masked", "zero", "int"}
Image == {"float", "float32", "int", "big-endian", "strided", "signed"}
Shape == {"circle", "half", "thin", "turned", "across"}
Init == \E ce \in Centre, me \in Method, ma \in Mask, er \in Err, im \in Image, sh \in Shape :
          c = [centre |-> ce, method |-> me, mask |-> ma, err |-> er, image |-> im, shape |-> sh]
Next == UNCHANGED c
Emit == PrintT(<<"CASE", ToJson(c)>>)
===========================================================================
