-------------------------------- MODULE C18 --------------------------------
(* Recorded values of the analytic helpers obey the Sersic law.             *)
EXTENDS Trace, SersicLaws
VARIABLES tid, l
Near(a, b, k) == RClose(a, b, E(k), Tiny)
SameNums(s, t) == Agree(s, t, E(12))
Each(n, P(_)) == \A i \in 1..n : P(i)

(* "flux": one galaxy (amp, re, n, e); radii r increasing from 0; L = flux  *)
(* inside them; and the same with scaled parameters                          *)
Flux(e) ==
  LET b == BN(e.n) N1 == Len(e.r)
      frac(i) == RDiv(e.L[i], e.total)
  IN Cl("flux-is-a-number-per-radius", NumSeq(e.L, N1))
     \cup Cl("zero-inside-radius-zero", REq(e.L[1], 0))
     \cup Cl("follows-sersic-law", Each(N1, LAMBDA i : Near(e.L[i], EnclosedAt(b, e.amp, e.re, e.n, e.e, e.r[i]), 8)))
     \cup Cl("increases-with-radius", \A i \in 1..N1-1 : RLt(e.L[i], e.L[i+1]) \/ (RLe(e.L[i], e.L[i+1]) /\ Near(e.L[i+1], e.total, 12)))
     \cup Cl("finite-total", RIsFin(e.total) /\ Near(e.total, RMul(RMul(RMul(e.amp, Sq(e.re)), RSub(1, e.e)), Total1(b, e.n)), 8))
     \cup Cl("half-the-total-inside-r_eff", Near(RMul(2, e.half), e.total, 9))
     \cup Cl("proportional-to-amplitude", Each(N1, LAMBDA i : Near(e.Lamp[i], RMul(e.kamp, e.L[i]), 9)))
     \cup Cl("proportional-to-axis-ratio", Each(N1, LAMBDA i : Near(RMul(e.L[i], RSub(1, e.e2)), RMul(e.Lell[i], RSub(1, e.e)), 9)))
     \cup Cl("depends-on-r/r_eff", Each(N1, LAMBDA i : Near(e.Lscale[i], RMul(Sq(e.s), e.L[i]), 8)))
     \* inverse: the flux and the radius determine each other where the curve is not flat
     \cup Cl("inverse-returns-the-radius", NumSeq(e.inv, N1) /\ Each(N1, LAMBDA i :
            (RLe(E(12), frac(i)) /\ RLe(frac(i), RSub(1, E(6)))) => Near(e.inv[i], e.r[i], 5)))
     \cup Cl("inverse-at-half-total", Near(e.invhalf, e.re, 8))
     \cup Cl("model-equals-formula", SameNums(e.Lmodel, e.L) /\ SameNums(e.Lscalar, e.L))
(* "annulus": growth of the flux against the light of the Sersic model       *)
Ann(e) ==
  LET b == BN(e.n) IN
  Cl("growth-is-integrated-light", RClose(RSub(e.L2, e.L1), Annulus(b, e.amp, e.re, e.n, e.e, e.r1, e.r2, 40), E(5), RMul(E(10), e.L2)))
  \cup Cl("light-of-the-sersic-model", Near(e.I1, Intensity(b, e.amp, e.re, e.n, e.r1), 8) /\ Near(e.I2, Intensity(b, e.amp, e.re, e.n, e.r2), 8))
(* "petro": ideal Petrosian profile                                          *)
Pet(e) ==
  LET b == BN(e.n) N1 == Len(e.r) IN
  Cl("value-per-radius", NumSeq(e.p, N1))
  \cup Cl("local-over-mean", Each(N1, LAMBDA i : Near(e.p[i], PetroAt(b, e.n, RDiv(e.r[i], e.re)), 7)))
  \cup Cl("decreases", \A i \in 1..N1-1 : RLt(e.p[i+1], e.p[i]) \/ (RLe(e.p[i+1], e.p[i]) /\ Near(e.p[i], 1, 9)))
  \cup Cl("tends-to-one", Each(N1, LAMBDA i : LET x == XOf(b, e.n, RDiv(e.r[i], e.re)) IN
            RLe(x, 1) => RLe(RSub(1, e.p[i]), RAdd(x, E(9))) /\ RLe(e.p[i], RAdd(1, E(9)))))
  \cup Cl("depends-on-r/r_eff-and-n", Each(N1, LAMBDA i : Near(e.pscale[i], e.p[i], 8)))
  \cup Cl("equals-ratio-of-the-helpers", Each(N1, LAMBDA i : Near(e.p[i], RDiv(RMul(RMul(e.I[i], RMul(RPi, Sq(e.r[i]))), RSub(1, e.e)), e.L[i]), 7)))
  \cup Cl("model-equals-formula", SameNums(e.pmodel, e.p) /\ SameNums(e.pscalar, e.p))
(* "centre": intensities at the centre and at r_eff                          *)
Cen(e) ==
  LET b == BN(e.n) IN
  Cl("central-intensity", Near(e.I0, RMul(e.Ie, RExp(b)), 9) /\ Near(e.I0, e.atcentre, 9))
  \cup Cl("effective-intensity", Near(e.Ieback, e.Ie, 9) /\ Near(e.Ieback, e.atre, 9))
  \cup Cl("conversions-invert-each-other", Near(e.I0back, e.I0, 9))
(* "approx": closed-form approximations at the exact concentrations of a     *)
(* Sersic galaxy of index n                                                  *)
App(e) ==
  Cl("index-from-concentration", RClose(e.fromc, e.n, RQ(3, 100), 0))
  \cup Cl("concentration-correction", RClose(e.fromu, e.c, RQ(2, 100), 0))
  \cup Cl("epsilon-from-index", RClose(e.fromn, e.eps, RQ(1, 500), 0))
  \cup Cl("epsilon-from-petrosian-concentration", RClose(e.fromp, e.eps, RQ(1, 40), 0))
Failed(e) ==
  Cl("never-raises", e.ok = 1)
  \cup (IF e.ok # 1 THEN {} ELSE
     CASE e.op = "flux" -> Flux(e) [] e.op = "annulus" -> Ann(e) [] e.op = "petro" -> Pet(e) [] e.op = "centre" -> Cen(e) [] e.op = "approx" -> App(e))
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(T)
        /\ Report(tid, l, RTry(Failed(T[l]), {"unexpected-result"}))
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
