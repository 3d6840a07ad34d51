-------------------------------- MODULE C17 --------------------------------
(* Recorded fits, background fits, Gaussian fits and fit plots.             *)
EXTENDS Trace, LeastSquares
VARIABLES tid, l
Tol == E(5)

\* valid pixels: neither NaN nor masked; x is the column, y the row
Pixels(e) ==
  LET all == FlattenSeq([j \in DOMAIN e.img |-> [i \in DOMAIN e.img[j] |->
                [x |-> N(i - 1), y |-> N(j - 1), z |-> e.img[j][i], w |-> IF None(e.weights) THEN N(1) ELSE e.weights[j][i], m |-> e.mask[j][i]]]])
  IN TLCEval(SelectSeq(all, LAMBDA p : p.m = 0 /\ ~RIsNaN(p.z)))
Free(e) == {k \in DOMAIN e.fixed : e.fixed[k] = 0}
Linear(e, ps) == Cl("weighted-normal-equations", \A k \in Free(e) : Orthogonal(ps, e.basis, e.p, e.basis[k], Tol))
Fixed(e) == Cl("fixed-parameters-kept", \A k \in DOMAIN e.fixed : e.fixed[k] = 1 => REq(e.p[k], e.start[k]))
\* a fit of an image the model made
Recovered(e) ==
  IF None(e.truth) THEN {}
  ELSE Cl("generating-model-recovered", \A k \in DOMAIN e.truth : RClose(e.p[k], e.truth[k], E(4), RMul(5, E(5))))
\* no nearby parameters do better
Step(e, k) == RMax(RQ(1, 50), RMul(RQ(1, 50), RAbs(e.p[k])))
Nudged(e, k, s) == [k0 \in DOMAIN e.p |-> IF k0 = k THEN RAdd(e.p[k], RMul(s, Step(e, k))) ELSE e.p[k0]]
Best(e, ps) ==
  IF e.light = "None" THEN {}
  ELSE LET At(p) == Chi(ps, Prep([k |-> e.light, p |-> p])) base == TLCEval(At(e.p)) IN
       Cl("no-better-parameters-nearby", \A k \in Free(e) : \A s \in {-1, 1} : RLe(base, RAdd(RMul(At(Nudged(e, k, s)), RAdd(1, E(6))), E(9))))
Common(e) ==
  Cl("fitter-returned", e.fitter_is = e.fitter /\ e.info = 1)
  \cup Cl("no-uncertainties-unasked", e.unc <= e.asked)
  \cup Cl("model-kind-kept", e.kind = e.kind0 /\ NumSeq(e.p, Len(e.start)))
\* (LevMar knows none at a singular point; they need more pixels than parameters)
Uncertain(e, ps) == Cl("uncertainties-when-asked", (e.asked = 1 /\ e.fitter # "levmar" /\ Len(ps) > 2 * Len(e.start)) => e.unc = 1)
Fit(e) ==
  IF e.bad = 1 THEN Cl("weights-of-another-shape-rejected", e.ok = 0)
  ELSE Cl("never-raises", e.ok = 1)
     \cup (IF e.ok # 1 THEN {} ELSE
           LET ps == Pixels(e) IN
           Common(e) \cup Uncertain(e, ps) \cup Fixed(e) \cup Recovered(e) \cup (IF None(e.basis) THEN Best(e, ps) ELSE Linear(e, ps)))
Background(e) ==
  Cl("never-raises", e.ok = 1)
  \cup (IF e.ok # 1 THEN {} ELSE
        LET ps == Pixels(e)
            lims == IF None(e.sigma) THEN <<>> ELSE ClipRounds([k \in DOMAIN ps |-> ps[k].z], e.sigma, 5)
            kept == TLCEval(SelectSeq(ps, LAMBDA p : ~ClippedEver(p.z, lims)))
            last == TLCEval(SelectSeq(ps, LAMBDA p : ~ClippedLast(p.z, lims)))
        IN Common(e)
           \cup (IF Len(kept) > 2 * Len(e.basis) /\ (None(e.sigma) \/ lims # <<>>) THEN Uncertain(e, kept) ELSE {})
           \cup (IF ~None(e.sigma) /\ lims = <<>> THEN {}
                 ELSE IF Len(kept) < Len(e.basis) + 2 THEN {}
                 ELSE IF Linear(e, last) = {} THEN {} ELSE Linear(e, kept)))
\* a Gaussian fitted to the image of a Gaussian, and its widths
Gaussian(e) ==
  Cl("never-raises", e.ok = 1)
  \cup (IF e.ok # 1 THEN {} ELSE
        LET Is(i, j) == RClose(RAbs(e.p[4]), e.truth[i], E(4), E(4)) /\ RClose(RAbs(e.p[5]), e.truth[j], E(4), E(4)) IN
        \* the widths of the two axes in either order: the fit may turn its axes by 90 degrees
        Cl("gaussian-recovered", NumSeq(e.p, 6) /\ (\A k \in 1..3 : RClose(e.p[k], e.truth[k], E(4), E(4))) /\ (Is(4, 5) \/ Is(5, 4)))
        \cup Cl("widths", NumSeq(e.fwhm, 2) /\ \A k \in 1..2 : RClose(RAbs(e.fwhm[k]), RMul(RMul(2, RSqrt(RMul(2, RLn(2)))), RAbs(e.p[3 + k])), E(6), E(6))))
\* plot_fit: the model image at the pixel coordinates and the residual
Plot(e) ==
  Cl("never-raises", e.ok = 1)
  \cup (IF e.ok # 1 THEN {} ELSE
        LET m == Prep(e.m) ny == Len(e.img) nx == Len(e.img[1])
            o == IF e.centre = <<>> THEN <<0, 0>> ELSE <<RSub(e.centre[1], nx \div 2), RSub(e.centre[2], ny \div 2)>>
            At(i, j) == LightAt(m, RAdd(o[1], i - 1), RAdd(o[2], j - 1)) IN
        Cl("model-image", Len(e.model) = ny /\ \A j \in 1..ny : NumSeq(e.model[j], nx) /\ \A i \in 1..nx : RClose(e.model[j][i], At(i, j), E(7), E(9)))
        \cup Cl("residual", Len(e.resid) = ny /\ \A j \in 1..ny : IsSeq(e.resid[j]) /\ Len(e.resid[j]) = nx /\ \A i \in 1..nx :
                RClose(e.resid[j][i], RSub(e.img[j][i], At(i, j)), E(7), RMul(E(7), RAbs(e.img[j][i])))))
Printed(e) ==
  Cl("one-line-per-parameter", e.ok = 1 /\ Len(e.names) = Len(e.lines))
  \cup Cl("parameter-values", \A k \in DOMAIN e.names : e.lines[k].name = e.names[k] /\ RClose(e.lines[k].value, e.p[k], 0, RQ(6, 100000)))
Failed(e) ==
  (CASE e.op = "fit" -> Fit(e) [] e.op = "background" -> Background(e) [] e.op = "gaussian" -> Gaussian(e)
     [] e.op = "plot" -> Plot(e) [] e.op = "print" -> Printed(e))
  \cup Cl("arguments-not-modified", e.before = e.after)
  \cup Cl("default-model-not-modified", e.default0 = e.default1)
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(T)
        /\ Report(tid, l, RTry(Failed(T[l]), {"unexpected-result"}))
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
