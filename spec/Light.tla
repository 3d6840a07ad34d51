------------------------------- MODULE Light -------------------------------
(* 2D light distributions, evaluated at a point.  A model is [k, p] with    *)
(* kind k and parameters p, or [k |-> "sum", m |-> <<models>>].              *)
EXTENDS Rat, SequencesExt
Sq(x) == RMul(x, x)

\* p = <<c0_0, c1_0, c2_0, c0_1, c0_2, c1_1>> (the order of Polynomial2D(2))
Poly(p, x, y) ==
  RSum(<<p[1], RMul(p[2], x), RMul(p[3], Sq(x)), RMul(p[4], y), RMul(p[5], Sq(y)), RMul(p[6], RMul(x, y))>>)
\* Moffat profile with exponent 1: p = <<amplitude, x_0, y_0, gamma, 1>>
Moffat1(p, x, y) == RDiv(p[1], RAdd(1, RDiv(RAdd(Sq(RSub(x, p[2])), Sq(RSub(y, p[3]))), Sq(p[4]))))
\* p = <<amplitude, x_mean, y_mean, x_stddev, y_stddev, theta>>
Rot(th, dx, dy) == LET c == RCos(th) s == RSin(th) IN <<RAdd(RMul(c, dx), RMul(s, dy)), RSub(RMul(c, dy), RMul(s, dx))>>
Gauss(p, x, y) ==
  LET r == Rot(p[6], RSub(x, p[2]), RSub(y, p[3]))
      q == RAdd(RDiv(Sq(r[1]), RMul(2, Sq(p[4]))), RDiv(Sq(r[2]), RMul(2, Sq(p[5]))))
  IN RMul(p[1], RExp(RNeg(q)))

\* b with P(2n, b) = 1/2, by bisection
BN(n) ==
  LET a == RMul(2, n)
      Step(iv, k) == LET mid == RRd(RDiv(RAdd(iv[1], iv[2]), 2)) IN
                     IF RLt(RGammaP(a, mid), RQ(1, 2)) THEN <<mid, iv[2]>> ELSE <<iv[1], mid>>
      iv == FoldLeft(Step, <<RQ(0, 1), RMul(2, RAdd(a, 1))>>, [k \in 1..60 |-> k])
  IN TLCEval(RRd(RDiv(RAdd(iv[1], iv[2]), 2)))
\* Sersic: p = <<amplitude, r_eff, n, x_0, y_0, ellip, theta>>; generalised: p[8] = c_0
SersicAt(amp, b, n, z) == RMul(amp, RExp(RNeg(RMul(b, RSub(RPow(z, RDiv(1, n)), 1)))))
Prep1(m) == IF m.k = "sersic" THEN [k |-> m.k, p |-> m.p, b |-> BN(m.p[3])] ELSE m   \* b_n once per model
Prep(m) == TLCEval(IF m.k = "sum" THEN [m EXCEPT !.m = [i \in DOMAIN m.m |-> Prep1(m.m[i])]] ELSE Prep1(m))
Sersic(m, x, y) ==
  LET p == m.p
      r == Rot(p[7], RSub(x, p[4]), RSub(y, p[5]))
      z == RSqrt(RAdd(Sq(RDiv(r[1], p[2])), Sq(RDiv(r[2], RMul(RSub(1, p[6]), p[2])))))
  IN SersicAt(p[1], m.b, p[3], z)

LightAt1(m, x, y) ==
  CASE m.k = "poly" -> Poly(m.p, x, y)
    [] m.k = "moffat" -> Moffat1(m.p, x, y)
    [] m.k = "gauss" -> Gauss(m.p, x, y)
    [] m.k = "sersic" -> Sersic(m, x, y)
\* of a prepared model
LightAt(m, x, y) ==
  RRd(IF m.k = "sum" THEN RAdd(LightAt1(m.m[1], x, y), LightAt1(m.m[2], x, y)) ELSE LightAt1(m, x, y))
============================================================================
