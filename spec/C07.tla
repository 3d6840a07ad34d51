-------------------------------- MODULE C07 --------------------------------
(* Fraction-of-light radii, fluxes and concentration indices: one           *)
(* definition for the function, the class and every property.               *)
EXTENDS Petro
VARIABLES tid, l

Same3(a, b) == RSame(a, b)
Conc3OK(kind, num, r, f, R, f1, f2, epsf, c) ==
  /\ NumSeq(c, 3)
  /\ \/ RIsNaN(c[1]) /\ RIsNaN(c[2]) /\ RIsNaN(c[3])
        /\ (FracOK(kind, num, r, f, R, f1, epsf, c[1]) \/ FracOK(kind, num, r, f, R, f2, epsf, c[2]))
     \/ /\ FracOK(kind, num, r, f, R, f1, epsf, c[1])
        /\ FracOK(kind, num, r, f, R, f2, epsf, c[2])
        /\ ~RIsNaN(c[1]) /\ ~RIsNaN(c[2])
        /\ ConcOK(c[1], c[2], c[3])

\* a call of fraction_to_r / calculate_concentration_index
FnFailed(e) ==
  LET o == e.out R == RRd(RMul(e.rp, e.eps)) IN
  Cl("never-raises", Ok(o))
  \cup (IF ~Ok(o) THEN {}
        ELSE IF e.op = "frac" THEN
          Cl("fraction-radius", FracOK(e.kind, e.num, e.r, e.f, R, e.f1, e.epsf, o.v.r))
        ELSE Cl("concentration", Conc3OK(e.kind, e.num, e.r, e.f, R, e.f1, e.f2, e.epsf, o.v)))
  \cup Cl("inputs-not-modified", e.after = e.before)

\* all properties of one Petrosian object
ObjFailed(e) ==
  LET o == e.obs
      bad == {k \in DOMAIN o : ~Ok(o[k])}
      V(k) == o[k].v
      R == V("r_epsilon")
      Fr(frac, v) == FracOK(e.kind, e.num, e.r, e.f, R, frac, e.epsf, v)
  IN Cl("never-raises", bad = {})
     \cup (IF bad # {} THEN {} ELSE
       Cl("r-epsilon", RClose(R, RMul(V("r_petrosian"), e.eps), E(9), 0))
       \cup Cl("range-flag", V("r_epsilon_in_range") = (~RIsNaN(R) /\ InRange(R, e.r)))
       \cup Cl("half-light", Fr(RQ(1, 2), V("r_half_light")))
       \cup Cl("r-50", RSame(V("r_50"), V("r_half_light")))
       \cup Cl("total-flux-radius", Fr(e.tff, V("r_total_flux")))
       \cup Cl("fraction", Fr(e.f1, V("fraction")))
       \cup Cl("default-fraction", RSame(V("fraction_default"), V("r_half_light")))
       \cup Cl("total-flux", FluxAtOK(e.kind, e.r, e.f, V("r_total_flux"), V("total_flux")))
       \cup Cl("half-flux", FluxAtOK(e.kind, e.r, e.f, V("r_half_light"), V("half_flux")))
       \cup Cl("concentration", Conc3OK(e.kind, e.num, e.r, e.f, R, e.f1, e.f2, e.epsf, V("conc")))
       \cup Cl("c2080", Fr(RQ(1, 5), V("r_20")) /\ Fr(RQ(4, 5), V("r_80")) /\ ConcOK(V("r_20"), V("r_80"), V("c2080")))
       \cup Cl("c5090", Fr(RQ(9, 10), V("r_90")) /\ ConcOK(V("r_half_light"), V("r_90"), V("c5090")))
       \cup Cl("larger-fraction-not-smaller",
               RIsNaN(V("r_20")) \/ RIsNaN(V("r_80")) \/ RLe(V("r_20"), V("r_80"))))
     \cup Cl("inputs-not-modified", e.after = e.before)

Failed(e) == IF e.op = "obj" THEN ObjFailed(e) ELSE FnFailed(e)
Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[tid])
        /\ Report(tid, l, RTry(Failed(Traces[tid][l]), {"unexpected-result"}))
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
