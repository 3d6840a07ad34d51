----------------------------- MODULE WrapHeap -----------------------------
(* Models, PSF wrappers, sub-models, copies and fit results as separate     *)
(* objects of a heap: every operation changes the one object it names or    *)
(* adds one.  An object is [t, kind, names, vals, fix, bnd]; bounds are     *)
(* pairs <<lo, hi>> of numbers or "None".                                   *)
EXTENDS Integers, Sequences
NoBound == <<"None", "None">>
IsWrap(o) == o.t = "wrap"
WrapOf(b) == [t |-> "wrap", kind |-> b.kind, names |-> Append(b.names, "psf_pa"), vals |-> Append(b.vals, 0),
              fix |-> Append(b.fix, 0), bnd |-> Append(b.bnd, NoBound)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
SubOf(w) == [t |-> "base", kind |-> w.kind, names |-> Front(w.names), vals |-> Front(w.vals),
             fix |-> Front(w.fix), bnd |-> Front(w.bnd)]
\* construction with flags or bounds given: those hold for the named parameter
WrapFix(b, p) == LET w == WrapOf(b) IN [w EXCEPT !.fix[p] = 1]
WrapBnd(b, p, x) == LET w == WrapOf(b) IN [w EXCEPT !.bnd[p] = x]

(* e: operation op on object h; parameter p, value v (number, flag, bounds)  *)
AfterW(heap, e) ==
  CASE e.op = "wrap" -> Append(heap, WrapOf(heap[e.h]))
    [] e.op = "wrapfix" -> Append(heap, WrapFix(heap[e.h], e.p))
    [] e.op = "wrapbnd" -> Append(heap, WrapBnd(heap[e.h], e.p, e.v))
    [] e.op = "sub" -> Append(heap, SubOf(heap[e.h]))
    [] e.op = "copy" -> Append(heap, heap[e.h])
    [] e.op = "par" -> [heap EXCEPT ![e.h].vals[e.p] = e.v]
    [] e.op = "fix" -> [heap EXCEPT ![e.h].fix[e.p] = e.v]
    [] e.op = "bnd" -> [heap EXCEPT ![e.h].bnd[e.p] = e.v]
    [] OTHER -> heap                      \* eval
===========================================================================
