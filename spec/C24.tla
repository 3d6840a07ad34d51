-------------------------------- MODULE C24 --------------------------------
(* Measurements of Sersic galaxies made from known parameters, and of the    *)
(* same image transposed, reflected, translated and brightened.              *)
EXTENDS Trace, SersicLaws
VARIABLES tid, l, want
P(k) == RQ(k, 1000)
TotalLight(b, g) == RRd(RMul(RMul(RMul(g.amp, Sq(g.re)), RSub(1, g.e)), Total1(b, g.n)))
Frac(b, g, r) == RGammaP(RMul(2, g.n), XOf(b, g.n, RDiv(r, g.re)))
\* sampling on pixels smears the galaxy over one pixel: error ~ (pixel / minor axis)^2
Minor(g) == RMul(g.re, RSub(1, g.e))
Smear(g, a, c) == RAdd(P(a), RDiv(P(c), Sq(Minor(g))))
Fade(g, r) == RExp(RNeg(RDiv(r, RMul(2, g.re))))
Near(a, v, t) == RClose(a, v, 0, t)
\* definition of the profile on rings, with the galaxy's own enclosed light
Ring(b, g, r, i) == LET f == Frac(b, g, r) IN RDiv(RMul(RDiv(RSub(f, Frac(b, g, i)), RSub(Sq(r), Sq(i))), Sq(r)), f)
Photometry(e, b) ==
  LET g == e.g t == TotalLight(b, g) IN
  Cl("enclosed-light", NumSeq(e.f, Len(e.r)) /\ \A k \in DOMAIN e.r :
        Near(RDiv(e.f[k], t), Frac(b, g, e.r[k]), RAdd(P(2), RMul(RDiv(P(500), Sq(Minor(g))), Fade(g, e.r[k])))))
  \cup Cl("enclosed-area", NumSeq(e.a, Len(e.r)) /\ \A k \in DOMAIN e.r :
        RClose(e.a[k], RMul(RMul(RPi, Sq(e.r[k])), RSub(1, g.e)), E(4), 0))
  \cup Cl("ideal-profile", \A k \in 2..Len(e.r) : RLe(e.r[k], 3) \/
        Near(e.pet[k], Ring(b, g, e.r[k], e.r[k - 1]), RAdd(P(6), RMul(RDiv(P(2400), Sq(Minor(g))), Sq(Fade(g, e.r[k]))))))
\* the radii of profile p (settings p.eta, p.eps, p.epsf, p.tff)
Radii(e, b, p, what) ==
  LET g == e.g far == RMul(p.eps, p.rp) last == e.r[Len(e.r)]
      u == RDiv(Frac(b, g, far), p.epsf)
      \* (radii below the first one measured are not found)
      holds(r, f, t) == Near(Frac(b, g, r), RMul(f, u), t) \/ (RClose(r, e.r[1], P(1), 0) /\ RLt(RMul(f, u), Frac(b, g, r)))
  IN IF ~RLt(far, last) \/ RLt(1, RDiv(p.tff, p.epsf)) THEN {}
     ELSE Cl("half-light-radius" \o what, holds(p.rhalf, RQ(1, 2), Smear(g, 5, 70)))
     \cup Cl("total-flux-radius" \o what, holds(p.rtot, p.tff, P(4)))
     \cup Cl("r_20" \o what, holds(p.r20, RQ(1, 5), Smear(g, 7, 150)))
     \cup Cl("r_80" \o what, holds(p.r80, RQ(4, 5), Smear(g, 4, 30)))
     \cup Cl("r_90" \o what, holds(p.r90, RQ(9, 10), Smear(g, 4, 30)))
     \cup Cl("c2080" \o what, RClose(p.c2080, Conc(p.r20, p.r80), E(9), E(9)))
     \cup Cl("c5090" \o what, RClose(p.c5090, Conc(p.rhalf, p.r90), E(9), E(9)))
     \cup Cl("total-flux" \o what, RClose(RDiv(p.tot, TotalLight(b, g)), RMul(p.tff, u), 0, P(6)))
     \cup Cl("half-flux" \o what, RClose(RDiv(p.half, TotalLight(b, g)), RMul(RQ(1, 2), u), 0, P(6)))
Galaxy(e) ==
  IF e.ok # 1 THEN {"never-raises"}
  ELSE LET g == e.g b == BN(g.n) p == e.p s == RSub(e.r[2], e.r[1]) IN
       Photometry(e, b)
       \cup Cl("petrosian-radius", Near(Ring(b, g, p.rp, RSub(p.rp, s)), p.eta, RAdd(Smear(g, 5, 60), RMul(RDiv(P(2400), Sq(Minor(g))), Sq(Fade(g, p.rp))))))
       \cup Cl("petrosian-radius-is-the-ideal-one", LET i == RMul(g.re, PetroRadius(b, g.n, p.eta)) IN
                  RLt(RSub(i, RQ(1, 2)), p.rp) /\ RLt(p.rp, RAdd(RAdd(i, RMul(2, s)), RDiv(2, Minor(g)))))
       \cup Radii(e, b, p, "")
       \cup Cl("amplitude-at-r_eff", RClose(RDiv(e.ampr, g.amp), 1, 0, Smear(g, 15, 300)))
       \cup (IF e.corr = 0 THEN {}
             ELSE IF e.cok # 1 THEN {"correction-never-raises"}
             ELSE Cl("corrected-half-light-radius", Near(Frac(b, g, e.c.rhalf), RQ(1, 2), Smear(g, 10, 80)) /\ RClose(e.c.rhalf, g.re, P(45), 0))
                  \cup Cl("corrected-total-flux-radius", Near(Frac(b, g, e.c.rtot), RQ(99, 100), P(6)))
                  \cup Cl("estimated-index", REq(e.c.n, g.n))
                  \cup Cl("corrected-total-flux", RClose(RDiv(e.c.tot, TotalLight(b, g)), RQ(99, 100), 0, P(8))))

\* ---- the same measurement of a moved image
\* x, y: position; th: direction; fields of light scale with the gain
Act(m, o) ==
  CASE o.op = "T" -> [m EXCEPT !.w = m.h, !.h = m.w, !.x = m.y, !.y = m.x, !.px = m.py, !.py = m.px, !.fx = m.fy, !.fy = m.fx,
                               !.th = RSub(RDiv(RPi, 2), m.th), !.fth = RSub(RDiv(RPi, 2), m.fth)]
    [] o.op = "F" -> LET v(a) == RSub(RSub(m.w, 1), a) IN
                     [m EXCEPT !.x = v(m.x), !.px = v(m.px), !.fx = v(m.fx), !.th = RSub(RPi, m.th), !.fth = RSub(RPi, m.fth)]
    [] o.op = "S" -> [m EXCEPT !.x = RAdd(m.x, o.dx), !.px = RAdd(m.px, o.dx), !.fx = RAdd(m.fx, o.dx),
                               !.y = RAdd(m.y, o.dy), !.py = RAdd(m.py, o.dy), !.fy = RAdd(m.fy, o.dy)]
    [] o.op = "G" -> LET k(a) == RMul(a, o.k) IN
                     [m EXCEPT !.segflux = k(m.segflux), !.peak = k(m.peak), !.f = TLCEval([i \in DOMAIN m.f |-> k(m.f[i])]), !.tot = k(m.tot), !.half = k(m.half), !.famp = k(m.famp), !.ampr = k(m.ampr)]
Turned(a, c, t) == RLe(RSub(1, RCos(RMul(2, RSub(a, c)))), t)
All(s, q, t) == Len(s) = Len(q) /\ \A k \in DOMAIN s : RClose(s[k], q[k], t, RMul(t, RAbs(q[Len(q)])))
Eq(a, c, t) == RClose(a, c, t, t)
Same(v, m, e) ==
  LET step == e.step IN   \* spacing of the sampled profile
  Cl("image-size", v.w = m.w /\ v.h = m.h)
  \cup Cl("number-of-sources", v.nsrc = m.nsrc)
  \cup Cl("segment-area", REq(v.segarea, m.segarea))
  \cup Cl("segment-flux", Eq(v.segflux, m.segflux, E(8)))
  \cup Cl("peak", Eq(v.peak, m.peak, E(12)))
  \cup Cl("peak-position", REq(v.px, m.px) /\ REq(v.py, m.py))
  \cup Cl("centroid", Near(v.x, m.x, E(6)) /\ Near(v.y, m.y, E(6)))
  \cup Cl("shape", Eq(v.elong, m.elong, E(6)) /\ Eq(v.ellip, m.ellip, E(6)))
  \cup Cl("orientation", Turned(v.th, m.th, E(9)))
  \cup Cl("photometry", All(v.f, m.f, E(8)))
  \cup Cl("area", All(v.a, m.a, E(8)))
  \cup Cl("petrosian-radius", RClose(v.rp, m.rp, 0, step))
  \cup Cl("half-light-radius", RClose(v.rhalf, m.rhalf, 0, step))
  \cup Cl("total-flux-radius", RClose(v.rtot, m.rtot, 0, step))
  \cup Cl("concentration", RClose(v.c2080, m.c2080, 0, P(30)) /\ RClose(v.c5090, m.c5090, 0, P(30)))
  \cup Cl("total-flux", Eq(v.tot, m.tot, E(3))) \cup Cl("half-flux", Eq(v.half, m.half, E(3)))
  \cup Cl("corrected-epsilon", Eq(v.ceps, m.ceps, E(9)))
  \cup Cl("corrected-half-light-radius", RClose(v.crhalf, m.crhalf, 0, step)) \cup Cl("corrected-total-flux-radius", RClose(v.crtot, m.crtot, 0, RMul(2, step)))
  \cup Cl("estimated-index", REq(v.cn, m.cn))
  \cup Cl("amplitude-at-r", Eq(v.ampr, m.ampr, P(10)))
  \cup Cl("fit-centre", Near(v.fx, m.fx, P(2)) /\ Near(v.fy, m.fy, P(2)))
  \cup Cl("fit-orientation", Turned(v.fth, m.fth, E(5)))
  \cup Cl("fit-amplitude", Eq(v.famp, m.famp, P(3)))
  \cup Cl("fit-radius-index-shape", Eq(v.fre, m.fre, P(2)) /\ Eq(v.fn, m.fn, P(2)) /\ Near(v.fe, m.fe, P(2)))
\* a lone galaxy: the fit finds what it was made of
Truth(v, g) ==
  Cl("fit-recovers-the-galaxy", Eq(v.famp, g.amp, P(3)) /\ Eq(v.fre, g.re, P(2)) /\ Eq(v.fn, g.n, P(2)) /\ Near(v.fe, g.e, P(2))
       /\ Turned(v.fth, g.th, E(5)) /\ Near(v.fx, g.x0, P(2)) /\ Near(v.fy, g.y0, P(2)))
  \cup Cl("peak-at-the-galaxy", Near(v.px, g.x0, 1) /\ Near(v.py, g.y0, 1))
  \cup Cl("orientation-of-the-galaxy", Turned(v.th, g.th, P(30)))
Move(e) ==
  IF e.ok # 1 THEN {"never-raises"}
  ELSE IF e.op = "base" THEN (IF e.alone = 1 THEN Truth(e.m, e.g) ELSE {})
  ELSE Same(e.m, Act(want, e), e)
T == Traces[tid]
Failed(e) == IF e.op = "galaxy" THEN Galaxy(e) ELSE Move(e)
Init == tid \in 1..Len(Traces) /\ l = 1 /\ want = 0
Next == /\ l <= Len(T) /\ l' = l + 1 /\ UNCHANGED tid
        /\ Report(tid, l, RTry(Failed(T[l]), {"unexpected-result"}))
        /\ want' = IF T[l].op = "galaxy" THEN 0 ELSE IF T[l].op = "base" THEN (IF T[l].ok = 1 THEN T[l].m ELSE 0)
                   ELSE RTry(Act(want, T[l]), 0)
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
