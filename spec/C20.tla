-------------------------------- MODULE C20 --------------------------------
(* Recorded unit and shape conversions.                                     *)
EXTENDS Trace
VARIABLES tid, l
Tol == E(10)
Near(a, b) == RClose(a, b, Tol, 0)

\* ellipticity <-> elongation
Ellip(e) ==
  LET n == Len(e.e) IN
  Cl("elongation-of-ellipticity", NumSeq(e.toE, n) /\ \A i \in 1..n : Near(RMul(e.toE[i], RSub(1, e.e[i])), 1))
  \cup Cl("ellipticity-of-elongation", NumSeq(e.toe, n) /\ \A i \in 1..n : RClose(RMul(e.toe[i], e.el[i]), RSub(e.el[i], 1), Tol, Tol))
  \cup Cl("inverse", NumSeq(e.back, n) /\ \A i \in 1..n : RClose(e.back[i], e.e[i], Tol, Tol))
Area(e) ==
  LET n == Len(e.area) IN
  Cl("ellipse-area", NumSeq(e.a, n) /\ NumSeq(e.b, n) /\ \A i \in 1..n : Near(RMul(RPi, RMul(e.a[i], e.b[i])), e.area[i]))
  \cup Cl("axis-ratio", \A i \in 1..n : Near(e.a[i], RMul(e.b[i], e.el[i])) /\ RLe(0, e.a[i]) /\ RLe(0, e.b[i]))
  \cup Cl("circle-area", NumSeq(e.r, n) /\ \A i \in 1..n : Near(RMul(RPi, RMul(e.r[i], e.r[i])), e.area[i]) /\ RLe(0, e.r[i]))

\* arcseconds in a unit
Arcsec(un) == CASE un = "deg" -> 3600 [] un = "rad" -> RDiv(648000, RPi) [] un = "arcmin" -> 60
                [] un = "arcsec" -> 1 [] un = "mas" -> RQ(1, 1000)
\* side of a pixel along axis k: the norm of the column of the linear transformation (header units)
Side(e, k) == RMul(Arcsec(e.cunit), RSqrt(RSum([i \in 1..2 |-> RMul(e.cd[i][k], e.cd[i][k])])))
Square(e) == RClose(Side(e, 1), Side(e, 2), E(6), 0)
Oblong(e) == ~RClose(Side(e, 1), Side(e, 2), RQ(3, 100), 0)
Angle(e) ==
  LET n == Len(e.v) s == Side(e, 1) IN
  IF Oblong(e) THEN Cl("non-square-rejected", e.to.ok = 0 /\ e.back.ok = 0)
  ELSE IF ~Square(e) THEN {}
  ELSE Cl("never-raises", e.to.ok = 1 /\ e.back.ok = 1 /\ e.round.ok = 1)
     \cup Cl("angle-in-pixels", NumSeq(e.to.v, n) /\ \A i \in 1..n : Near(RMul(e.to.v[i], s), RMul(e.v[i], Arcsec(e.unit))))
     \cup Cl("pixels-in-arcsec", e.backunit = "arcsec" /\ NumSeq(e.back.v, n) /\ \A i \in 1..n : Near(e.back.v[i], RMul(e.v[i], s)))
     \cup Cl("inverse", NumSeq(e.round.v, n) /\ \A i \in 1..n : Near(e.round.v[i], e.v[i]))

\* Petrosian radii in arcseconds (in the spec's words: pixels times scale, NaN stays NaN)
Radii(e) ==
  Cl("never-raises", e.ok = 1)
  \cup (IF e.ok # 1 THEN {} ELSE
        LET s == Side(e, 1) IN
        Cl("half-light-arcsec", IF RIsNaN(e.half) THEN RIsNaN(e.half_as) ELSE Near(e.half_as, RMul(e.half, s)))
        \cup Cl("total-flux-arcsec", IF RIsNaN(e.total) THEN RIsNaN(e.total_as) ELSE Near(e.total_as, RMul(e.total, s))))

\* AB magnitude with the zero point of the header
Zero(e) == RAdd(RAdd(RMul(RQ(-5, 2), RLog10(e.PHOTFLAM)), e.PHOTZPT), RSub(RQ(18692, 1000), RMul(5, RLog10(e.PHOTPLAM))))
Mag(e) ==
  LET n == Len(e.flux) z == TLCEval(Zero(e)) IN
  Cl("never-raises", e.ok = 1)
  \cup (IF e.ok # 1 THEN {} ELSE
     Cl("one-magnitude-per-flux", NumSeq(e.mag, n))
     \cup Cl("nan-exactly-if-no-flux", \A i \in 1..n : RIsNaN(e.mag[i]) <=> ~RLt(0, e.flux[i]))
     \cup Cl("ab-magnitude", \A i \in 1..n : RLt(0, e.flux[i]) =>
            RClose(e.mag[i], RAdd(z, RMul(RQ(-5, 2), RLog10(e.flux[i]))), 0, IF e.single = 1 THEN E(5) ELSE E(9))))
Failed(e) ==
  (CASE e.op = "ellip" -> Cl("never-raises", e.ok = 1) \cup (IF e.ok = 1 THEN Ellip(e) ELSE {})
     [] e.op = "area" -> Cl("never-raises", e.ok = 1) \cup (IF e.ok = 1 THEN Area(e) ELSE {})
     [] e.op = "angle" -> Angle(e) [] e.op = "radii" -> Radii(e) [] e.op = "mag" -> Mag(e))
  \cup Cl("input-not-modified", e.after = e.before)
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(T)
        /\ Report(tid, l, RTry(Failed(T[l]), {"unexpected-result"}))
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
