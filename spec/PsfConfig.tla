----------------------------- MODULE PsfConfig -----------------------------
(* The sampling configuration of a PSF-convolved model as a state machine.  *)
(* A Python value is a record [t, v, s, e]: its type t; an integer v, a     *)
(* string s (floats are written out), or the elements e of a sequence.      *)
EXTENDS Integers, Sequences

Py(t, v, s, e) == [t |-> t, v |-> v, s |-> s, e |-> e]
None_ == Py("none", 0, "", <<>>)
Int_(v) == Py("int", v, "", <<>>)
Float_(s) == Py("float", 0, s, <<>>)
Str_(s) == Py("str", 0, s, <<>>)
Seq_(t, e) == Py(t, 0, "", e)

IsSeqVal(x) == x.t \in {"tuple", "list"}
PosInt(x) == x.t = "int" /\ x.v > 0
Factor(x) == IF x.t = "none" THEN 1 ELSE IF x.t = "int" THEN x.v ELSE x.e[4].v
ShapeOs(x) ==                       \* well-formed sampling rule
  \/ x.t = "none"
  \/ PosInt(x)
  \/ IsSeqVal(x) /\ Len(x.e) = 4 /\ x.e[3].t = "int" /\ PosInt(x.e[4])
ShapePo(x) == x.t = "none" \/ PosInt(x)
Divides(po, os) == Factor(os) % Factor(po) = 0

\* assignments that must be accepted
OkOs(c, x) == ShapeOs(x) /\ Divides(c.po, x)
OkPo(c, x) == ShapePo(x) /\ (x.t # "none" => c.psf.t # "none" /\ Divides(x, c.os))
OkPsf(c, x) == TRUE
\* the value read back after an assignment
Stored(x) == IF IsSeqVal(x) THEN [x EXCEPT !.t = "tuple"] ELSE x

Assign(c, a) ==
  CASE a.op = "oversample" -> IF OkOs(c, a.x) THEN [c EXCEPT !.os = Stored(a.x)] ELSE c
    [] a.op = "psf_oversample" -> IF OkPo(c, a.x) THEN [c EXCEPT !.po = a.x] ELSE c
    [] a.op = "psf" -> [c EXCEPT !.psf = a.x]
Accepts(c, a) ==
  CASE a.op = "oversample" -> OkOs(c, a.x)
    [] a.op = "psf_oversample" -> OkPo(c, a.x)
    [] a.op = "psf" -> TRUE
\* construction with all three at once
OkNew(os, po, psf) ==
  ShapeOs(os) /\ ShapePo(po) /\ (po.t # "none" => psf.t # "none" /\ Divides(po, os))

\* the configuration is valid
Valid(c) == ShapeOs(c.os) /\ ShapePo(c.po) /\ Divides(c.po, c.os)
=============================================================================
