----------------------------- MODULE C20Model -----------------------------
(* Every combination of unit, pixel scale, WCS form and input form; every   *)
(* short list of fluxes in every input form.                                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLE c
Units == {"deg", "rad", "arcmin", "arcsec", "mas"}
Scales == {"1/200", "4/100", "6/100", "263/1000", "4", "60"}         \* arcsec per pixel
Forms == {"cdelt", "cd", "pc", "rotated", "flipped", "arcsec-units"}
Ratios == {"1", "21/20", "19/20", "3/2", "1/2"}
Inputs == {"scalar", "int", "array", "list", "quantity"}
F == {"-3", "0", "nan", "1", "250", "1/1000"}
FForms == {"float", "int", "npfloat", "npfloat32", "npint", "array", "array32", "intarray", "list", "tuple", "2d"}
Whole(v) == v \in {"-3", "0", "1", "250"}
Init == \/ \E un \in Units, s \in Scales, f \in Forms, r \in Ratios, i \in Inputs :
             /\ (r # "1" => i = "scalar" /\ un = "arcsec")
             /\ c = [op |-> "angle", unit |-> un, scale |-> s, form |-> f, ratio |-> r, input |-> i]
        \/ \E n \in 1..MaxLen : \E v \in [1..n -> F], ff \in FForms :
             /\ (ff \in {"float", "int", "npfloat", "npfloat32", "npint"} => n = 1)
             /\ (ff \in {"int", "npint", "intarray"} => \A k \in 1..n : Whole(v[k]))
             /\ c = [op |-> "mag", flux |-> v, form |-> ff]
        \/ \E k \in 0..40, ff \in {"float", "array", "npfloat"} : c = [op |-> "ellip", k |-> k, form |-> ff]
        \/ \E k \in 0..10, e \in 0..8, ff \in {"float", "int", "array"} : c = [op |-> "area", k |-> k, e |-> e, form |-> ff]
Next == UNCHANGED c
Emit == PrintT(<<"CASE", ToJson(c)>>)
===========================================================================
