----------------------------- MODULE Apertures -----------------------------
(* Aperture sums over an image: img[j+1][i+1] is the pixel at x = i, y = j; *)
(* use[j+1][i+1] says whether the pixel is usable (1) or not (0).           *)
EXTENDS Trace, Ellipse
\* overlapped usable pixels of an aperture: sequence of [v, e, lo, hi]
OverlappedW(img, err, use, sh, method, W(_, _, _, _)) ==
  LET ny == Len(img) nx == Len(img[1])
      One(j, i) == LET w == IF use[j][i] = 1 THEN W(sh, method, i - 1, j - 1) ELSE <<N(0), N(0)>> IN
                   [v |-> img[j][i], e |-> IF None(err) THEN N(0) ELSE err[j][i], lo |-> w[1], hi |-> w[2]]
      all == TLCEval(FlattenSeq([j \in 1..ny |-> [i \in 1..nx |-> One(j, i)]]))
  IN SelectSeq(all, LAMBDA p : RLt(0, p.hi))
Overlapped(img, err, use, sh, method) == OverlappedW(img, err, use, sh, method, Weight)
\* interval of the sum of f over pixels with uncertain weights; contains the NaN flag
Interval(ps, F(_)) ==
  LET lo == RSum([k \in DOMAIN ps |-> LET f == F(ps[k]) IN RMul(f, IF RLt(f, 0) THEN ps[k].hi ELSE ps[k].lo)])
      hi == RSum([k \in DOMAIN ps |-> LET f == F(ps[k]) IN RMul(f, IF RLt(f, 0) THEN ps[k].lo ELSE ps[k].hi)])
  IN <<lo, hi>>
Scale(ps, F(_)) == RSum([k \in DOMAIN ps |-> RMul(RAbs(F(ps[k])), ps[k].hi)])
\* x lies in the interval up to the 6th decimal place (6e-7: half a unit of the last place, and 1e-7)
Within(x, iv, scale) ==
  LET t == RAdd(RQ(6, 10000000), RMul(E(9), scale)) IN RLe(RSub(iv[1], t), x) /\ RLe(x, RAdd(iv[2], t))
Val(p) == p.v
Var(p) == RMul(p.e, p.e)
Unit(p) == N(1)
\* the k-th aperture: clauses about its flux, area and error
ApertureOk(ps, err, flux, area, ferr) ==
  LET sq == RMul(ferr, ferr) iv == Interval(ps, Var) IN
  Cl("flux", RIsNum(flux) /\ Within(flux, Interval(ps, Val), Scale(ps, Val)))
  \cup Cl("area", RIsNum(area) /\ Within(area, Interval(ps, Unit), Scale(ps, Unit)))
  \cup Cl("error", IF None(err) THEN RIsNaN(ferr)
                   ELSE IF \E k \in DOMAIN ps : RIsNaN(ps[k].e) THEN RIsNaN(ferr) \/ (\A k \in DOMAIN ps : RIsNaN(ps[k].e) => RLt(ps[k].lo, E(9)))
                   ELSE RLe(0, ferr) /\ LET t == RAdd(RQ(6, 10000000), RMul(E(9), ferr))
                                            m == RMax(0, RSub(ferr, t)) n == RAdd(ferr, t) IN
                        RLe(RMul(m, m), iv[2]) /\ RLe(iv[1], RMul(n, n)))
\* a usable NaN pixel is certainly / possibly in the aperture
NanIn(ps) == \E k \in DOMAIN ps : RIsNaN(ps[k].v) /\ RLt(E(6), ps[k].lo)
NanMaybe(ps) == \E k \in DOMAIN ps : RIsNaN(ps[k].v)
\* the clauses, with the weights of degenerate pixels left open where that is what it takes
ApertureClauses(img, err, use, sh, method, ps, flux, area, ferr) ==
  LET strict == ApertureOk(ps, err, flux, area, ferr) IN
  IF strict = {} \/ method # "exact" THEN strict
  ELSE ApertureOk(OverlappedW(img, err, use, sh, method, LooseWeight), err, flux, area, ferr)
===========================================================================
