-------------------------------- MODULE C09 --------------------------------
(* Error estimates of radii and fluxes.                                     *)
EXTENDS Petro
VARIABLES tid, l

RpFailed(e) ==
  LET o == e.out IN
  Cl("never-raises", Ok(o))
  \cup (IF ~Ok(o) THEN {} ELSE
    Cl("petrosian-radius-error", RpErrOK(e.kind, e.num, e.r, e.p, e.perr, e.eta, o.v[1], o.v[2]))
    \cup Cl("radius-independent-of-errors", RSame(o.v[1], e.plain)))
  \cup Cl("inputs-not-modified", e.after = e.before)

FrFailed(e) ==
  LET o == e.out R == RRd(RMul(e.rp, e.eps)) IN
  Cl("never-raises", Ok(o))
  \cup (IF ~Ok(o) THEN {} ELSE
    Cl("fraction-radius-error",
       FracErrOK(e.kind, e.num, e.r, e.f, e.ferr, R, e.rperr, e.f1, e.epsf, o.v[1], o.v[2]))
    \cup Cl("radius-independent-of-errors", RSame(o.v[1], e.plain)))
  \cup Cl("inputs-not-modified", e.after = e.before)

ObjFailed(e) ==
  LET o == e.obs
      bad == {k \in DOMAIN o : ~Ok(o[k])}
      V(k) == o[k].v
      R == V("r_epsilon")
      Fe(frac, v, q) == FracErrOK(e.kind, e.num, e.r, e.f, e.ferr, R, V("r_petrosian_err"), frac, e.epsf, v, q)
  IN Cl("never-raises", bad = {})
     \cup (IF bad # {} THEN {} ELSE
       Cl("petrosian-radius-error",
          RpErrOK(e.kind, e.num, e.r, V("p"), V("perr"), e.eta, V("r_petrosian"), V("r_petrosian_err")))
       \cup Cl("half-light-error", Fe(RQ(1, 2), V("r_half_light"), V("r_half_light_err")))
       \cup Cl("r-50-error", RSame(V("r_50_err"), V("r_half_light_err")))
       \cup Cl("total-flux-radius-error", Fe(e.tff, V("r_total_flux"), V("r_total_flux_err")))
       \cup Cl("fraction-error", Fe(e.f1, V("fraction"), V("fraction_err")))
       \cup Cl("total-flux-error",
               FluxErrOK(e.r, e.ferr, V("r_total_flux"), V("r_total_flux_err"), V("total_flux"), V("total_flux_err")))
       \cup Cl("half-flux-error",
               FluxErrOK(e.r, e.ferr, V("r_half_light"), V("r_half_light_err"), V("half_flux"), V("half_flux_err")))
       \cup Cl("radius-independent-of-errors",
               \A k \in {"r_half_light", "r_total_flux", "total_flux", "half_flux"} : RSame(V(k), e.plain[k].v)))
     \cup Cl("inputs-not-modified", e.after = e.before)

Failed(e) == IF e.op = "obj" THEN ObjFailed(e) ELSE IF e.op = "frac" THEN FrFailed(e) ELSE RpFailed(e)
Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[tid])
        /\ Report(tid, l, RTry(Failed(Traces[tid][l]), {"unexpected-result"}))
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
