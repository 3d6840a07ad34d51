---------------------------- MODULE LeastSquares ----------------------------
(* Weighted least squares over the valid pixels, and sigma clipping.        *)
(* A pixel is [x, y, z, w]; a basis is a sequence of <<i, j>>: x^i y^j.     *)
EXTENDS Light, FiniteSets
RECURSIVE IPow(_, _)
IPow(x, n) == IF n = 0 THEN N(1) ELSE RMul(x, IPow(x, n - 1))
Mono(b, px) == RMul(IPow(px.x, RFloor(b[1])), IPow(px.y, RFloor(b[2])))
Predict(basis, c, px) == RSum([k \in DOMAIN basis |-> RMul(c[k], Mono(basis[k], px))])
WS(px, v) == RMul(RMul(px.w, px.w), v)
Total(ps, F(_)) == RSum([k \in DOMAIN ps |-> F(ps[k])])
\* the weighted normal equation of basis function b: the weighted residual is orthogonal to it
Orthogonal(ps, basis, c, b, tol) ==
  LET rs == TLCEval([k \in DOMAIN ps |-> RRd(RMul(ps[k].w, RSub(ps[k].z, Predict(basis, c, ps[k]))))])
      fs == TLCEval([k \in DOMAIN ps |-> RRd(RMul(ps[k].w, Mono(b, ps[k])))])
      Norm(s) == RSqrt(RRd(RSum([k \in DOMAIN s |-> RMul(s[k], s[k])])))
      zs == TLCEval([k \in DOMAIN ps |-> RRd(RMul(ps[k].w, ps[k].z))])
  IN RLe(RAbs(RDot(rs, fs)), RMul(Norm(fs), RAdd(RMul(tol, Norm(rs)), RAdd(RMul(RQ(1, 1000000000), Norm(zs)), RQ(1, 1000000000)))))   \* data of all zeros: near enough
\* sum of squared weighted residuals of a light distribution (prepared)
Chi(ps, m) == RSum([k \in DOMAIN ps |-> LET d == RRd(RMul(ps[k].w, RSub(ps[k].z, LightAt(m, ps[k].x, ps[k].y)))) IN RRd(RMul(d, d))])

\* one round of clipping a sequence of values: <<kept values, clear>>; clear is FALSE when a value is too near the limit to tell
LOCAL Sorted(s) == SortSeq(s, LAMBDA a, b : RLt(a, b))
Median(s) == LET t == Sorted(s) n == Len(s) IN
  IF n = 2 * (n \div 2) THEN RDiv(RAdd(t[n \div 2], t[n \div 2 + 1]), 2) ELSE t[n \div 2 + 1]
Mean(s) == RDiv(RSum(s), Len(s))
Std(s) == LET m == Mean(s) IN RSqrt(RRd(RDiv(RSum([k \in DOMAIN s |-> RMul(RSub(s[k], m), RSub(s[k], m))]), Len(s))))
Limits(s, sigma) == LET c == Median(s) d == RMul(sigma, Std(s)) IN <<RSub(c, d), RAdd(c, d)>>
RECURSIVE ClipRounds(_, _, _)
\* limits of the last round, or <<>> when some decision is too close to call
ClipRounds(s, sigma, rounds) ==
  LET lim == TLCEval(Limits(s, sigma))
      near == RMul(RQ(1, 1000000000), RAdd(RAbs(lim[1]), RAbs(lim[2])))
      close == \E k \in DOMAIN s : \E e \in 1..2 : RLe(RAbs(RSub(s[k], lim[e])), near) /\ ~RSame(lim[1], lim[2])
      keep == TLCEval(SelectSeq(s, LAMBDA v : RLe(lim[1], v) /\ RLe(v, lim[2])))
  IN IF s = <<>> THEN <<>>
     ELSE IF close THEN <<>>
     ELSE IF Len(keep) = Len(s) \/ rounds = 1 \/ keep = <<>> THEN <<lim>>
     ELSE LET rest == ClipRounds(keep, sigma, rounds - 1) IN IF rest = <<>> THEN <<>> ELSE <<lim>> \o rest
\* whether a value is rejected; the text of the rule leaves open whether a value rejected in an early
\* round comes back when a later round's limits include it (limits may move as values go)
Outside(v, lim) == RLt(v, lim[1]) \/ RLt(lim[2], v)
ClippedEver(v, lims) == \E k \in DOMAIN lims : Outside(v, lims[k])
ClippedLast(v, lims) == lims # <<>> /\ Outside(v, lims[Len(lims)])
=============================================================================
