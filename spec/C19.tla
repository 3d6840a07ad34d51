-------------------------------- MODULE C19 --------------------------------
(* Recorded values of the generalised Sersic and Nuker models, and default  *)
(* bounds, obey their laws.                                                 *)
EXTENDS Trace, Light
VARIABLES tid, l, base

Near(a, b, k) == RClose(a, b, E(k), Tiny)
All(n, P(_)) == \A i \in 1..n : P(i)
Abs1(x) == RAbs(x)
\* p = <<amplitude, r_eff, n, x_0, y_0, ellip, theta, c_0>>
\* generalised elliptical radius in units of r_eff
GenZ(p, x, y) ==
  LET r == Rot(p[7], RSub(x, p[4]), RSub(y, p[5])) q == RAdd(p[8], 2)
      u == Abs1(RDiv(r[1], p[2])) v == Abs1(RDiv(r[2], RMul(RSub(1, p[6]), p[2])))
  IN RPow(RAdd(RPow(u, q), RPow(v, q)), RDiv(1, q))
\* a model's value at a point may be off by its slope times the rounding of the coordinates
GenSersic(e) ==
  LET p == e.p b == BN(p[3]) m == Len(e.x)
      Z(i) == GenZ(p, e.x[i], e.y[i])
      V(i) == e.v[i]
  IN Cl("one-value-per-point", NumSeq(e.v, m))
     \cup Cl("value-at-point", All(m, LAMBDA i : Near(V(i), SersicAt(p[1], b, p[3], Z(i)), 6)))
     \* e.iso: points built on the isophote of r_eff from the ends of its axes
     \cup Cl("amplitude-on-the-isophote", All(Len(e.iso), LAMBDA i : Near(e.iso[i], p[1], 7)))
     \cup Cl("constant-on-generalised-ellipses", All(Len(e.ring), LAMBDA i : Near(e.ring[i], e.ring[1], 6)))
     \cup Cl("decreases-outward", All(Len(e.ray) - 1, LAMBDA i : RLt(e.ray[i + 1], e.ray[i])))
     \cup Cl("point-symmetric", All(m, LAMBDA i : Near(e.anti[i], V(i), 6)))
     \cup Cl("mirror-symmetric", All(m, LAMBDA i : Near(e.mir1[i], V(i), 6) /\ Near(e.mir2[i], V(i), 6)))
     \cup Cl("sersic-when-not-boxy", All(Len(e.plain), LAMBDA i : Near(e.plain[i], e.sersic[i], 7)))
     \cup Cl("scalars-as-arrays", All(m, LAMBDA i : Near(e.scalar[i], V(i), 12)))
\* Nuker: p = <<amplitude, r_break, x_0, y_0, alpha, beta, gamma>>
Nuker(e) ==
  LET p == e.p m == Len(e.x)
      R(i) == RDiv(RSqrt(RAdd(Sq(RSub(e.x[i], p[3])), Sq(RSub(e.y[i], p[4])))), p[2])
      Law(t) == RMul(RMul(RMul(p[1], RPow(2, RDiv(RSub(p[6], p[7]), p[5]))), RPow(t, RNeg(p[7]))),
                     RPow(RAdd(1, RPow(t, p[5])), RDiv(RSub(p[7], p[6]), p[5])))
  IN Cl("one-value-per-point", NumSeq(e.v, m))
     \cup Cl("nan-only-at-the-centre", All(m, LAMBDA i : RIsNaN(e.v[i]) = REq(R(i), 0)))
     \cup Cl("value-at-point", All(m, LAMBDA i : REq(R(i), 0) \/ Near(e.v[i], Law(R(i)), 7)))
     \cup Cl("circular", All(Len(e.circle), LAMBDA i : Near(e.circle[i], e.circle[1], 7)))
     \cup Cl("amplitude-at-r_break", All(Len(e.brk), LAMBDA i : Near(e.brk[i], p[1], 7)))
     \* slopes over the innermost and outermost decades
     \cup Cl("inner-slope", RClose(RDiv(RLn(RDiv(e.inn[2], e.inn[1])), RLn(RDiv(e.rin[2], e.rin[1]))), RNeg(p[7]), 0, E(3)))
     \cup Cl("outer-slope", RClose(RDiv(RLn(RDiv(e.out[2], e.out[1])), RLn(RDiv(e.rout[2], e.rout[1]))), RNeg(p[6]), 0, E(3)))
     \cup Cl("scalars-as-arrays", All(m, LAMBDA i : Near(e.scalar[i], e.v[i], 12)))
\* core-Sersic: p = <<amplitude, r_eff, r_break, n, x_0, y_0, alpha, gamma, ellip, theta>>
CoreAt(p, b, r) ==      \* (Graham et al. 2003), normalised to the amplitude at the break
  LET sh(t) == RPow(RAdd(RPow(RDiv(t, p[2]), p[7]), RPow(RDiv(p[3], p[2]), p[7])), RDiv(1, RMul(p[7], p[4])))
      in(t) == RPow(RDiv(RAdd(1, RPow(RDiv(p[3], t), p[7])), 2), RDiv(p[8], p[7]))
  IN RMul(RMul(p[1], in(r)), RExp(RMul(b, RSub(sh(p[3]), sh(r)))))
Core(e) ==
  LET p == e.p m == Len(e.x) b == BN(p[4])
      R(i) == LET d == Rot(p[10], RSub(e.x[i], p[5]), RSub(e.y[i], p[6])) IN RSqrt(RAdd(Sq(d[1]), Sq(RDiv(d[2], RSub(1, p[9])))))
  IN Cl("one-value-per-point", NumSeq(e.v, m))
     \cup Cl("nan-only-at-the-centre", All(m, LAMBDA i : RIsNaN(e.v[i]) = REq(R(i), 0)))
     \cup Cl("value-at-point", All(m, LAMBDA i : REq(R(i), 0) \/ Near(e.v[i], CoreAt(p, b, R(i)), 6)))
     \cup Cl("constant-on-ellipses", All(Len(e.ring), LAMBDA i : Near(e.ring[i], e.ring[1], 6)))
     \cup Cl("amplitude-at-r_break", All(Len(e.brk), LAMBDA i : Near(e.brk[i], p[1], 6)))
     \cup Cl("inner-slope", RClose(RDiv(RLn(RDiv(e.inn[2], e.inn[1])), RLn(RDiv(e.rin[2], e.rin[1]))), RNeg(p[8]), 0, E(3)))
     \cup Cl("scalars-as-arrays", All(m, LAMBDA i : Near(e.scalar[i], e.v[i], 12)))
\* bounds: the first call of each kind without overrides shows the defaults; every call returns
\* those with its own overrides, whatever was done to earlier results
Merge(d, o) == [k \in (DOMAIN d \cup DOMAIN o) \ {"_"} |-> IF k \in DOMAIN o THEN o[k] ELSE d[k]]
Bounds(e) ==
  Cl("never-raises", e.ok = 1)
  \cup (IF e.ok # 1 THEN {} ELSE
    Cl("defaults-with-overrides", LET want == Merge(base[e.kind], e.over) IN
         DOMAIN e.got = DOMAIN want /\ \A k \in DOMAIN want : Agree(e.got[k], want[k], 0))
    \cup Cl("override-not-modified", e.after = e.before)
    \cup Cl("fresh-dictionary", e.fresh = 1))
Failed(e) ==
  CASE e.op = "gen" -> Cl("never-raises", e.ok = 1) \cup (IF e.ok = 1 THEN GenSersic(e) ELSE {})
    [] e.op = "nuker" -> Cl("never-raises", e.ok = 1) \cup (IF e.ok = 1 THEN Nuker(e) ELSE {})
    [] e.op = "core" -> Cl("never-raises", e.ok = 1) \cup (IF e.ok = 1 THEN Core(e) ELSE {})
    [] e.op = "defaults" ->
         Cl("names-of-parameters", DOMAIN e.plain = {"amplitude", "r_eff", "n", "ellip", "theta"})
         \cup Cl("boxy-adds-only-the-boxiness", DOMAIN e.gen = DOMAIN e.plain \cup {"c_0"} /\ \A k \in DOMAIN e.plain : Agree(e.gen[k], e.plain[k], 0))
    [] e.op = "bounds" -> Bounds(e)
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ base = [plain |-> <<>>]
Next == /\ l <= Len(T)
        /\ Report(tid, l, RTry(Failed(T[l]), {"unexpected-result"}))
        /\ base' = IF T[l].op = "defaults" THEN [plain |-> T[l].plain, gen |-> T[l].gen] ELSE base
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
