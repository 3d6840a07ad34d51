-------------------------------- MODULE C01 --------------------------------
(* Recorded aperture photometry.                                            *)
EXTENDS Apertures
VARIABLES tid, l

Photometry(e) ==
  LET n == Len(e.r)
      S == TLCEval([k \in 1..n |-> Ell(e.x, e.y, e.r[k], RDiv(e.r[k], e.elong), e.theta)])
      P == TLCEval([k \in 1..n |-> TLCEval(Overlapped(e.img, e.err, e.use, S[k], e.method))])
  IN IF e.ok = 0 THEN Cl("never-raises-without-a-usable-nan", \E k \in 1..n : NanMaybe(P[k]))
     ELSE Cl("usable-nan-raises", \A k \in 1..n : ~NanIn(P[k]))
        \cup Cl("one-entry-per-radius", NumSeq(e.flux, n) /\ NumSeq(e.area, n) /\ NumSeq(e.ferr, n))
        \cup (IF ~(NumSeq(e.flux, n) /\ NumSeq(e.area, n) /\ NumSeq(e.ferr, n)) \/ \E k \in 1..n : NanMaybe(P[k]) THEN {}
              ELSE UNION {ApertureClauses(e.img, e.err, e.use, S[k], e.method, P[k], e.flux[k], e.area[k], e.ferr[k]) : k \in 1..n})
Near(a, b) == RClose(a, b, E(12), E(12))
Geometry(e) ==
  Cl("never-raises", e.ok = 1)
  \cup (IF e.ok # 1 THEN {} ELSE
        Cl("centre", Near(e.cx, e.x) /\ Near(e.cy, e.y))
        \cup Cl("semi-axes", Near(e.a, e.r) /\ Near(e.b, RDiv(e.r, e.elong)))
        \cup Cl("orientation", Near(e.th, e.theta))
        \cup Cl("annulus", /\ Near(e.ann[1], e.r) /\ Near(e.ann[2], RDiv(e.r, e.elong))
                           /\ Near(e.ann[3], RAdd(e.r, e.dr)) /\ Near(e.ann[4], RDiv(RAdd(e.r, e.dr), e.elong))
                           /\ Near(e.ann[5], e.x) /\ Near(e.ann[6], e.y) /\ Near(e.ann[7], e.theta)))
Failed(e) ==
  (CASE e.op = "phot" -> Photometry(e) [] e.op = "geom" -> Geometry(e))
  \cup Cl("arguments-not-modified", e.before = e.after)
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(T)
        /\ Report(tid, l, RTry(Failed(T[l]), {"unexpected-result"}))
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
