----------------------------- MODULE C17Model -----------------------------
(* Every combination of model, fitter, excluded pixels, weights, fixed      *)
(* parameters and sigma.                                                    *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE c
Fitter == {"trf", "levmar", "lm", "linear"}
Model == {"plane", "poly2", "const", "gauss", "moffat"}
Nan == {"none", "some", "row"}
Mask == {"array", "masked", "masked-nan"}
Weight == {"none", "some", "int", "zero-some", "bad-shape"}
Init == \/ \E m \in Model, f \in Fitter, n \in Nan, k \in Mask, w \in Weight, x \in {0, 1} :
             /\ (f = "linear" => m \in {"plane", "poly2"})   \* astropy fits no Const2D linearly
             /\ c = [op |-> "fit", model |-> m, fitter |-> f, nan |-> n, mask |-> k, weight |-> w, fixed |-> x]
        \/ \E m \in {"default", "plane", "poly2", "const"}, f \in Fitter, n \in Nan, k \in Mask, s \in {"default", "None", "2", "5/2", "3/2", "10"} :
             /\ (f = "linear" => m # "const")
             /\ c = [op |-> "background", model |-> m, fitter |-> f, nan |-> n, mask |-> k, sigma |-> s]
Next == UNCHANGED c
Emit == PrintT(<<"CASE", ToJson(c)>>)
===========================================================================
