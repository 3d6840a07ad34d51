----------------------------- MODULE C13Model -----------------------------
(* Every kind of sampling configuration and way to ask for an image.        *)
EXTENDS PsfConfig, TLC, Json
VARIABLE c
\* psf: height and width (0: none); os: rule [t, f]; po: PSF oversampling (0: None); pa: quarter turns, 4 = another angle
Psfs == {<<0, 0>>, <<1, 1>>, <<2, 2>>, <<3, 3>>, <<4, 4>>, <<5, 5>>, <<3, 2>>, <<2, 5>>, <<9, 9>>}
Os == {[t |-> "none", f |-> 1]} \cup {[t |-> t, f |-> f] : t \in {"int", "win", "named"}, f \in {1, 2, 3, 4, 6}}
Ok(p, o, q) == LET v == IF o.t = "none" THEN None_ ELSE Int_(o.f) IN
  OkNew(v, IF q = 0 THEN None_ ELSE Int_(q), IF p[1] = 0 THEN None_ ELSE Py("psf", 1, "norm", <<>>))
How == {"image", "centred", "float", "int", "subset"}
Init == \E p \in Psfs, o \in Os, q \in 0..3, a \in 0..4, h \in How :
          /\ Ok(p, o, q) /\ (p[1] # p[2] => a = 0)
          /\ c = [psf |-> p, os |-> o, po |-> q, pa |-> a, how |-> h]
Next == UNCHANGED c
Emit == PrintT(<<"CASE", ToJson(c)>>)
===========================================================================
