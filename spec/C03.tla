-------------------------------- MODULE C03 --------------------------------
(* Recorded source photometry, judged against apertures on the full frame.  *)
EXTENDS Apertures, Background
VARIABLES tid, l

RECURSIVE MaxOf(_, _)
MaxOf(s, k) == IF k = 1 THEN N(s[1]) ELSE RMax(MaxOf(s, k - 1), s[k])
Ceil(v) == -RFloor(RNeg(v))
\* side of the cutout: given, or three times the largest radius; whole and even
Side(e) == LET s == IF None(e.size) THEN Ceil(RMul(3, MaxOf(e.r, Len(e.r)))) ELSE RFloor(e.size) IN s + (s % 2)
\* frame pixels (x, y counted from 0) inside the cutout
Inside(e, i, j) == LET h == Side(e) \div 2 IN e.x - h <= i /\ i < e.x + h /\ e.y - h <= j /\ j < e.y + h
Usable(e) == TLCEval([j \in DOMAIN e.img |-> [i \in DOMAIN e.img[j] |->
  LET s == e.seg[j][i] IN
  IF Inside(e, i - 1, j - 1) /\ (s = e.label \/ (s = 0 /\ e.maskbg = 0)) /\ ~RIsNaN(e.img[j][i]) THEN 1 ELSE 0]])
\* source-free pixels of the cutout, at coordinates relative to the source
Empty(e) ==
  LET all == FlattenSeq([j \in DOMAIN e.img |-> [i \in DOMAIN e.img[j] |->
               [x |-> N(i - 1 - e.x), y |-> N(j - 1 - e.y), z |-> e.img[j][i], w |-> N(1),
                in |-> Inside(e, i - 1, j - 1) /\ e.seg[j][i] = 0 /\ ~RIsNaN(e.img[j][i])]]])
  IN TLCEval(SelectSeq(all, LAMBDA p : p.in))
\* the planes the rejection rule allows (<<>>: open)
Planes(e, ps) ==
  LET z == [k \in DOMAIN ps |-> ps[k].z] IN
  IF e.type = "clip"
  THEN LET lims == ClipRounds(z, e.sigma, 5) IN
       IF lims = <<>> THEN {<<>>}
       ELSE {Plane(SelectSeq(ps, LAMBDA p : ~ClippedEver(p.z, lims))), Plane(SelectSeq(ps, LAMBDA p : ~ClippedLast(p.z, lims)))}
  ELSE LET lims == ClipRounds(z, 3, 5) IN
       IF lims = <<>> THEN {<<>>}
       ELSE LET By(Out(_, _)) ==
                  LET m == RRd(Mean(SelectSeq(z, LAMBDA v : ~Out(v, lims)))) IN
                  IF \E k \in DOMAIN z : RClose(RAbs(RSub(z[k], m)), e.sigma, E(9), RMul(E(9), RAbs(m))) THEN <<>>
                  ELSE Plane(SelectSeq(ps, LAMBDA p : RLe(RAbs(RSub(p.z, m)), e.sigma)))
            IN {By(ClippedEver), By(ClippedLast)}
\* the frame after subtraction
Minus(e, use, q) == TLCEval([j \in DOMAIN e.img |-> [i \in DOMAIN e.img[j] |->
  IF use[j][i] = 0 THEN N(0)
  ELSE LET v == RRd(RSub(e.img[j][i], PlaneAt(q, i - 1 - e.x, j - 1 - e.y))) IN IF e.type = "bound" THEN RMax(v, RNeg(e.sigma)) ELSE v]])
Measured(e, img, use, n) ==
  UNION {LET sh == Ell(e.x, e.y, e.r[k], RDiv(e.r[k], e.elong), e.theta)
             ps == TLCEval(Overlapped(img, e.err, use, sh, e.method))
         IN ApertureClauses(img, e.err, use, sh, e.method, ps, e.flux[k], e.area[k], e.ferr[k]) : k \in 1..n}
Photometry(e) ==
  LET n == Len(e.r) use == Usable(e) ps == Empty(e)
      sub == e.bg = 1 /\ Len(ps) > 10
      known == e.type \in {"clip", "bound"}
      planes == IF sub /\ known THEN TLCEval(Planes(e, ps)) ELSE {}
  IN IF e.bg = 1 /\ ~known THEN (IF sub THEN Cl("unknown-rejection-rejected", e.ok = 0) ELSE {})
     ELSE IF <<>> \in planes THEN {}
     ELSE IF e.ok # 1 THEN {"never-raises"}
     ELSE LET shape == Cl("one-entry-per-radius", NumSeq(e.flux, n) /\ NumSeq(e.area, n) /\ NumSeq(e.ferr, n)) IN
          IF shape # {} THEN shape
          ELSE IF ~sub THEN Measured(e, e.img, use, n)
          ELSE LET res == {Measured(e, Minus(e, use, q), use, n) : q \in planes} IN
               IF {} \in res THEN {} ELSE CHOOSE r \in res : TRUE
Failed(e) == Photometry(e) \cup Cl("arguments-not-modified", e.before = e.after)
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(T)
        /\ Report(tid, l, RTry(Failed(T[l]), {"unexpected-result"}))
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
