------------------------------- MODULE Petro -------------------------------
(* Petrosian photometry: profile, Petrosian radius, fraction-of-light radii *)
(* and their error estimates, as relations between inputs and results.      *)
EXTENDS Trace, Interp

--------------------------------------------------------------------------
(* C05: the profile *)
ProfileValid(a, f) == /\ Len(a) = Len(f) /\ Len(a) > 2
                      /\ \A i \in 1..Len(a)-1 : RLe(a[i], a[i+1])
\* the first aperture with the same area
FirstSame(a, i) == CHOOSE j \in 1..i : REq(a[j], a[i]) /\ \A k \in 1..j-1 : ~REq(a[k], a[i])

ProfileAt(a, f, i) ==
  LET j == FirstSame(a, i) IN
  IF j = 1 THEN RQ(0, 0)
  ELSE RDiv(RDiv(RSub(f[j], f[j-1]), RSub(a[j], a[j-1])), RDiv(f[j], a[j]))

\* square of the 1-sigma error: relative errors of annulus flux and area (each from
\* its two apertures) and of enclosed flux and area, combined in quadrature
Sq(v) == RMul(v, v)
ProfileVarAt(a, f, ea, ef, i) ==
  LET j == FirstSame(a, i)
      df == RSub(f[j], f[j-1])   da == RSub(a[j], a[j-1])
      vdf == RAdd(Sq(ef[j]), Sq(ef[j-1]))   vda == RAdd(Sq(ea[j]), Sq(ea[j-1]))
      I == RDiv(df, da)   M == RDiv(f[j], a[j])
      vI == RDiv(RAdd(vdf, RMul(Sq(I), vda)), Sq(da))
      rM == RAdd(RDiv(Sq(ef[j]), Sq(f[j])), RDiv(Sq(ea[j]), Sq(a[j])))
  IN IF j = 1 THEN RQ(0, 0)
     ELSE RDiv(RAdd(vI, RMul(Sq(I), rM)), Sq(M))

Zeros(n) == [i \in 1..n |-> 0]
--------------------------------------------------------------------------
(* C06: Petrosian radius *)
Anchor(s, v) == [i \in 1..Len(s) |-> IF i = 1 THEN N(v) ELSE N(s[i])]
TolOf(y) == RMul(E(9), RAdd(1, LET m == TLCEval([i \in 1..Len(y) |-> IF RIsFin(y[i]) THEN RAbs(y[i]) ELSE N(0)]) IN SeqMax(m)))

\* admissible Petrosian radii, as a set of indices of the grid (0: undefined)
RpIdx(kind, num, r, p, eta) ==
  LET x == Anchor(r, 0) y == Anchor(p, 1)
      gx == GridX(kind, num, x)
      gy == GridY(kind, x, y, gx)
  IN Reach2(gy, eta, FALSE, IF kind = "None" THEN 0 ELSE TolOf(y), TolOf(y))
RGrid(kind, num, r) == GridX(kind, num, Anchor(r, 0))

At(gx, k) == IF k = 0 THEN RQ(0, 0) ELSE N(gx[k])
IsOneOf(v, gx, ks) == \E k \in ks : RClose(v, At(gx, k), E(9), Tiny)

RpOK(kind, num, r, p, eta, v) == IsOneOf(v, RGrid(kind, num, r), RpIdx(kind, num, r, p, eta))

\* C09: its error: half the difference of the radii of the profile plus / minus its error
RpErrOK(kind, num, r, p, ep, eta, v, e) ==
  IF None(ep) \/ RIsNaN(v) THEN RIsNaN(e)
  ELSE LET n == Len(p)
           pe == [i \in 1..n |-> IF i = 1 THEN N(0) ELSE N(ep[i])]
           up == TLCEval([i \in 1..n |-> RAdd(Anchor(p, 1)[i], pe[i])])
           lo == TLCEval([i \in 1..n |-> RSub(Anchor(p, 1)[i], pe[i])])
           gx == RGrid(kind, num, r)
           U == RpIdx(kind, num, r, up, eta)
           L == RpIdx(kind, num, r, lo, eta)
           tol == RMul(E(9), gx[Len(gx)])
       IN \E u \in U, l \in L :
            RClose(e, RDiv(RSub(At(gx, u), At(gx, l)), 2), E(9), tol)
--------------------------------------------------------------------------
(* C07: radius of a fraction of the light *)
CogKind(kind) == IF kind = "None" THEN "cubic" ELSE kind
InRange(R, r) == RLe(SeqMin(r), R) /\ RLe(R, SeqMax(r))
NearEdge(R, r) == RClose(R, SeqMin(r), E(9), 0) \/ RClose(R, SeqMax(r), E(9), 0)

\* beside an end of the measured radii, where rounding decides (exactly at it, it is inside)
BesideEdge(R, r) == NearEdge(R, r) /\ ~RClose(R, SeqMin(r), 0, 0) /\ ~RClose(R, SeqMax(r), 0, 0)
\* the values of the curve at R: a step kind jumps at nodes and middles, where rounding of R decides the side
EvalNear(kind, r, f, R) ==
  LET ck == CogKind(kind)
      d == RMul(E(10), RAdd(1, RAbs(R)))
      at(q) == EvalAt(ck, r, f, RMax(SeqMin(r), RMin(q, SeqMax(r))))
  IN IF RIsNaN(R) \/ (~InRange(R, r) /\ ~NearEdge(R, r)) THEN {RQ(0, 0)}
     ELSE IF ck \notin {"nearest", "nearest-up", "previous", "next", "zero"} THEN {at(R)}
     ELSE {at(R), at(RSub(R, d)), at(RAdd(R, d))}
Targets(kind, r, f, R, frac, epsf) == {RRd(RMul(v, RDiv(frac, epsf))) : v \in EvalNear(kind, r, f, R)}

\* spacing of the sampling at index k
Step(gx, k) == LET a == IF k > 1 THEN RSub(gx[k], gx[k-1]) ELSE N(0)
                   b == IF k < Len(gx) THEN RSub(gx[k+1], gx[k]) ELSE N(0) IN RMax(a, b)

\* The radius v is admissible: within a step of the first sample reaching the target,
\* or the closest sample up to there.
FracOK(kind, num, r, f, R, frac, epsf, v) ==
  LET gx == GridX(kind, num, r)
      gy == GridY(kind, r, f, gx)
      Ts == IF RIsNaN(R) \/ (~InRange(R, r) /\ ~NearEdge(R, r)) THEN {} ELSE Targets(kind, r, f, R, frac, epsf)
      tol == TolOf(f)
      n == Len(gx)
      nan == RIsNaN(v)
      ok(T) ==
        LET sure == SelectInSeq(gy, LAMBDA z : RLe(RAdd(T, tol), z))
            poss == SelectInSeq(gy, LAMBDA z : RLe(RSub(T, tol), z))
            stops == IF poss = 0 THEN {} ELSE poss..(IF sure = 0 THEN n ELSE sure)
            near(s) == RClose(v, gx[s], E(9), RMul(RQ(1001, 1000), Step(gx, s)))
                       /\ (s = 1 => RClose(v, gx[1], E(9), Tiny))
        IN IF RIsNaN(T) THEN nan
           ELSE IF nan THEN sure = 0 \/ BesideEdge(R, r)
           ELSE \/ \E s \in stops : near(s)
                \/ IsOneOf(v, gx, Reach(gy, T, TRUE, tol) \ {0})
  IN IF RIsNaN(R) \/ (~InRange(R, r) /\ ~NearEdge(R, r)) THEN nan
     ELSE \E T \in Ts : ok(T)

(* C09: error of a fraction radius: half the difference between the radius  *)
(* where the lowered curve reaches the raised target and the radius where   *)
(* the raised curve reaches the lowered target                              *)
FracErrOK(kind, num, r, f, ef, R, eR, frac, epsf, v, e) ==
  IF None(ef) \/ RIsNaN(v) THEN RIsNaN(e)
  ELSE LET n == Len(r)
           er == IF None(eR) THEN N(0) ELSE IF RIsNaN(eR) THEN N(0) ELSE N(eR)
           lo == TLCEval([i \in 1..n |-> RSub(f[i], ef[i])])
           up == TLCEval([i \in 1..n |-> RAdd(f[i], ef[i])])
           R1 == RSub(R, er)  R2 == RAdd(R, er)
           halves == {RDiv(RSub(b, a), 2) : b \in EvalNear(kind, r, up, R2), a \in EvalNear(kind, r, lo, R1)}
           Ts == Targets(kind, r, f, R, frac, epsf)
           gx == GridX(kind, num, r)
           ylo == GridY(kind, r, lo, gx)
           yup == GridY(kind, r, up, gx)
           U(T, half) == Reach(ylo, RAdd(T, half), TRUE, TolOf(up))
           L(T, half) == Reach(yup, RSub(T, half), TRUE, TolOf(up))
           tol == RMul(E(9), SeqMax(r))
       IN IF (~InRange(R1, r) /\ ~NearEdge(R1, r)) \/ (~InRange(R2, r) /\ ~NearEdge(R2, r))
          THEN RIsNaN(e)
          ELSE \/ \E T \in Ts, half \in halves : \E u \in U(T, half), l \in L(T, half) :
                    RClose(e, RDiv(RSub(At(gx, u), At(gx, l)), 2), E(9), tol)
               \/ (NearEdge(R1, r) \/ NearEdge(R2, r)) /\ RIsNaN(e)

\* C07: a concentration index
ConcOK(r1, r2, c) == IF RIsNaN(r1) \/ RIsNaN(r2) THEN RIsNaN(c)
                     ELSE RClose(c, RMul(5, RLog10(RDiv(r2, r1))), E(9), E(9))
\* C07: the flux at a radius
FluxAtOK(kind, r, f, v, F) ==
  IF RIsNaN(v) THEN RIsNaN(F) ELSE RClose(F, EvalAt(CogKind(kind), r, f, v), E(9), TolOf(f))
\* C09: flux error: nearest measured radius' flux error and the radius error in quadrature
FluxErrOK(r, ef, v, ev, F, eF) ==
  IF None(ef) \/ RIsNaN(F) \/ RIsNaN(ev) THEN RIsNaN(eF)
  ELSE LET n == Len(r)
           d == TLCEval([i \in 1..n |-> RAbs(RSub(r[i], v))])
           best == {i \in 1..n : \A j \in 1..n : RLe(d[i], RAdd(d[j], RMul(E(9), r[n])))}
       IN \E i \in best : RClose(RMul(eF, eF), RAdd(Sq(ef[i]), Sq(ev)), E(9), Tiny)
============================================================================
