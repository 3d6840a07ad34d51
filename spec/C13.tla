-------------------------------- MODULE C13 --------------------------------
(* Recorded images of real PSF-convolved models.                            *)
EXTENDS Trace, PsfImage
VARIABLES tid, l

\* the region spanned by the coordinates of the requested pixels
Request(e) ==
  LET x0 == FoldLeft(RMin, e.x[1], e.x) y0 == FoldLeft(RMin, e.y[1], e.y)
      x1 == FoldLeft(RMax, e.x[1], e.x) y1 == FoldLeft(RMax, e.y[1], e.y)
  IN [m |-> Prep(e.m), x0 |-> x0, y0 |-> y0, nx |-> 1 + RRound(RSub(x1, x0)), ny |-> 1 + RRound(RSub(y1, y0)),
      psf |-> Turns(e.psf, e.turns), os |-> e.os, po |-> e.po]
\* rounding in the convolution is relative to the brightest light of the region
Brightest(s) == FoldLeft(LAMBDA t, r : RMax(t, FoldLeft(LAMBDA u, v : RMax(u, RAbs(v)), RQ(0, 1), r)), RQ(0, 1), s)
SameAs(e, q, square) ==
  LET s == Sampled(q, square)
      img == Binned(Convolved(s, q.psf), q.po)
      tol == RMul(E(8), Brightest(s))
  IN \A k \in 1..Len(e.x) :
       RClose(e.img[k], img[1 + RRound(RSub(e.y[k], q.y0))][1 + RRound(RSub(e.x[k], q.x0))], 0, tol)
Failed(e) ==
  Cl("image-can-be-made", e.ok = 1)
  \cup (IF e.ok # 1 THEN {} ELSE
     LET q == Request(e) IN
     Cl("one-value-per-pixel", NumSeq(e.img, Len(e.x)))
     \cup (IF e.os.t = "win" THEN
             Cl("image-equals-sample-convolve-bin", SameAs(e, q, FALSE) \/ (q.nx # q.ny /\ SameAs(e, q, TRUE)))
           ELSE Cl("image-equals-sample-convolve-bin", SameAs(e, q, TRUE)))
     \cup (IF e.psf = <<>> /\ e.os.t = "none" THEN
             Cl("bare-model-unchanged", \A k \in 1..Len(e.x) : RClose(e.img[k], LightAt(q.m, e.x[k], e.y[k]), E(9), E(12))) ELSE {}))
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(T)
        /\ Report(tid, l, RTry(Failed(T[l]), {"unexpected-result"}))
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
