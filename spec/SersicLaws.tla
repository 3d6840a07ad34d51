---------------------------- MODULE SersicLaws ----------------------------
(* The Sersic law: light, enclosed flux, ideal Petrosian profile.           *)
EXTENDS Light
Mod2(i) == i % 2
\* flux inside r for amplitude 1, r_eff 1, ellipticity 0 when r is in units of r_eff; b = BN(n)
XOf(b, n, u) == RMul(b, RPow(u, RDiv(1, n)))
Total1(b, n) ==
  LET a == RMul(2, n)   \* 2 pi n e^b b^(-2n) Gamma(2n)
      lg == RAdd(RSub(b, RMul(a, RLn(b))), RLnGamma(a))
  IN RRd(RMul(RMul(RMul(2, RPi), n), RExp(lg)))
Enclosed1(b, n, u) == RRd(RMul(Total1(b, n), RGammaP(RMul(2, n), XOf(b, n, u))))
EnclosedAt(b, amp, re, n, e, r) ==
  RRd(RMul(RMul(RMul(amp, Sq(re)), RSub(1, e)), Enclosed1(b, n, RDiv(r, re))))
Intensity(b, amp, re, n, r) == SersicAt(amp, b, n, RDiv(r, re))
\* local over mean enclosed surface brightness
PetroAt(b, n, u) == RRd(RDiv(RMul(SersicAt(1, b, n, u), RMul(RPi, Sq(u))), Enclosed1(b, n, u)))
\* integral of 2 pi (1-e) r I(r) from r1 to r2 by Simpson's rule with 2k intervals in log r
Annulus(b, amp, re, n, e, r1, r2, k) ==
  LET t1 == RLn(r1) h == RDiv(RSub(RLn(r2), t1), 2 * k)
      f(i) == LET r == RExp(RAdd(t1, RMul(i, h))) IN RMul(RMul(r, r), Intensity(b, amp, re, n, r))
      w(i) == IF i = 0 \/ i = 2 * k THEN 1 ELSE IF Mod2(i) = 1 THEN 4 ELSE 2
      s == RSum([i \in 1..2*k+1 |-> RRd(RMul(w(i - 1), f(i - 1)))])
  IN RRd(RMul(RMul(RMul(2, RPi), RSub(1, e)), RDiv(RMul(s, h), 3)))
\* the x in [lo, hi] with f(x) = v, f increasing
Solve(f(_), v, lo, hi) ==
  LET Step(iv, k) == LET mid == RRd(RDiv(RAdd(iv[1], iv[2]), 2)) IN IF RLt(f(mid), v) THEN <<mid, iv[2]>> ELSE <<iv[1], mid>>
      iv == FoldLeft(Step, <<N(lo), N(hi)>>, [k \in 1..70 |-> k])
  IN TLCEval(RRd(RDiv(RAdd(iv[1], iv[2]), 2)))
\* radius, in units of r_eff, holding the fraction f of the total light
FracRadius(b, n, f) == LET x == Solve(LAMBDA z : RGammaP(RMul(2, n), z), f, 0, 200) IN RPow(RDiv(x, b), n)
PetroRadius(b, n, eta) ==   \* bisection in log r
  RExp(Solve(LAMBDA t : RNeg(PetroAt(b, n, RExp(t))), RNeg(eta), -60, 12))
Conc(r1, r2) == RMul(5, RLog10(RDiv(r2, r1)))
===========================================================================
