------------------------------ MODULE GridRows ------------------------------
(* One row of a correction grid: the Sersic galaxy of index n and effective *)
(* radius r_eff whose amplitude is 100 exp(-b_n), measured with epsilon = 2 *)
(* and with the epsilon that ends at 99 per cent of its light.              *)
EXTENDS Trace, SersicLaws
Amp(b) == RMul(100, RExp(RNeg(b)))
Tot(b, n, re) == RRd(RMul(RMul(Amp(b), Sq(re)), Total1(b, n)))
\* fraction of all light inside r
Frac(b, n, re, r) == RGammaP(RMul(2, n), XOf(b, n, RDiv(r, re)))
\* radius r holds the fraction f of the light, to tol
Holds(b, n, re, r, f, tol) == RClose(Frac(b, n, re, r), f, 0, tol)
P(k) == RQ(k, 1000)
Log5(a, c) == RMul(5, RLog10(RDiv(a, c)))
Same9(a, c) == RClose(a, c, RQ(1, 1000000000), RQ(1, 1000000000))
\* clauses that need no galaxy
Consistent(w) ==
  Cl("p0502", Same9(w.p0502, Log5(w.p02, w.p05)))
  \cup Cl("p0302", Same9(w.p0302, Log5(w.p02, w.p03)))
  \cup Cl("petrosian-radii-ordered", RLe(w.p03, w.p02) /\ RLe(w.p04, w.p03) /\ RLe(w.p05, w.p04) /\ RLt(0, w.p05))
  \cup Cl("u_c2080", Same9(w.u_c2080, Log5(w.u_r_80, w.u_r_20)))
  \cup Cl("c_c2080", Same9(w.c_c2080, Log5(w.c_r_80, w.c_r_20)))
  \cup Cl("u_epsilon", REq(w.u_epsilon, 2))
  \cup Cl("u_epsilon_50", Same9(w.u_epsilon_50, RDiv(w.u_r_50, w.p02)))
  \cup Cl("u_epsilon_80", Same9(w.u_epsilon_80, RDiv(w.u_r_80, w.p02)))
  \cup Cl("c_epsilon_50", Same9(w.c_epsilon_50, RDiv(w.c_r_50, w.p02)))
  \cup Cl("u_r_99", RClose(w.u_r_99, RMul(2, w.p02), P(3), 0))
  \cup Cl("c_r_99", RClose(w.c_r_99, RMul(w.c_epsilon, w.p02), P(3), 0))
  \cup Cl("uncorrected-radii-ordered", RLt(0, w.u_r_20) /\ RLt(w.u_r_20, w.u_r_50) /\ RLt(w.u_r_50, w.u_r_80) /\ RLt(w.u_r_80, w.u_r_99))
  \cup Cl("corrected-radii-ordered", RLt(0, w.c_r_20) /\ RLt(w.c_r_20, w.c_r_50) /\ RLt(w.c_r_50, w.c_r_80) /\ RLt(w.c_r_80, w.c_r_99))
\* the ideal columns
Ideal(w, b, n, re) ==
  LET f(r, x) == RClose(Frac(b, n, re, r), RMul(x, RQ(99, 100)), E(7), E(9)) IN
  Cl("n", RClose(w.n, n, E(12), 0)) \cup Cl("r_eff", REq(w.r_eff, re))
  \cup Cl("sersic_L_inf", RClose(w.sersic_L_inf, Tot(b, n, re), E(8), 0))
  \cup Cl("sersic_r_20", f(w.sersic_r_20, RQ(1, 5))) \cup Cl("sersic_r_80", f(w.sersic_r_80, RQ(4, 5))) \cup Cl("sersic_r_99", f(w.sersic_r_99, 1))
\* the measured columns, against the galaxy, to the tolerances of sampling it on pixels and rings
Measured(w, b, n, re, t) ==
  LET u == Frac(b, n, re, RMul(2, w.p02))
      c == Frac(b, n, re, w.c_r_99)
      \* local over mean surface brightness of rings two pixels wide
      pet(r, eta) == LET i == RSub(r, 2) f == Frac(b, n, re, r) g == Frac(b, n, re, i)
                         v == RDiv(RMul(RDiv(RSub(f, g), RSub(Sq(r), Sq(i))), Sq(r)), f) IN RLe(199, r) \/ RClose(v, eta, 0, t.pet) IN
  Cl("p02-of-the-galaxy", pet(w.p02, RQ(1, 5))) \cup Cl("p03-of-the-galaxy", pet(w.p03, RQ(3, 10)))
  \cup Cl("p04-of-the-galaxy", pet(w.p04, RQ(2, 5))) \cup Cl("p05-of-the-galaxy", pet(w.p05, RQ(1, 2)))
  \cup Cl("u_r_20-of-the-galaxy", Holds(b, n, re, w.u_r_20, RMul(u, RQ(20, 99)), t.core))
  \cup Cl("u_r_50-of-the-galaxy", Holds(b, n, re, w.u_r_50, RMul(u, RQ(50, 99)), t.frac))
  \cup Cl("u_r_80-of-the-galaxy", Holds(b, n, re, w.u_r_80, RMul(u, RQ(80, 99)), t.frac))
  \cup Cl("c_r_20-of-the-galaxy", Holds(b, n, re, w.c_r_20, RQ(20, 100), t.core))
  \cup Cl("c_r_50-of-the-galaxy", Holds(b, n, re, w.c_r_50, RQ(50, 100), t.frac))
  \cup Cl("c_r_80-of-the-galaxy", Holds(b, n, re, w.c_r_80, RQ(80, 100), t.frac))
  \cup Cl("u_c5090-of-the-galaxy", LET q == RPow(10, RDiv(w.u_c5090, 5)) IN Holds(b, n, re, RMul(q, w.u_r_50), RMul(u, RQ(90, 99)), t.frac))
  \cup Cl("c_c5090-of-the-galaxy", LET q == RPow(10, RDiv(w.c_c5090, 5)) IN Holds(b, n, re, RMul(q, w.c_r_50), RQ(90, 100), t.frac))
  \cup Cl("corrected-total-radius-is-the-ideal-one", RClose(RQ(99, 100), c, 0, t.tot) /\ RClose(w.c_r_99, w.sersic_r_99, t.r99, 0))
  \cup Cl("c_epsilon_80-of-the-galaxy", Holds(b, n, re, RMul(w.c_epsilon_80, w.p02), RQ(792, 1000), t.frac))
=============================================================================
