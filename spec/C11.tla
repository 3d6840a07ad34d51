-------------------------------- MODULE C11 --------------------------------
(* Recorded generations of correction grids.  Event "ref": one row measured  *)
(* alone; event "gen": a grid for lists of n and r_eff, whose rows are to be *)
(* those of the refs, and the file it was to be written to.                  *)
EXTENDS GridRows
VARIABLES tid, l
TolOf(psf) == [pet |-> IF psf = 1 THEN P(40) ELSE P(12), frac |-> IF psf = 1 THEN P(20) ELSE P(8), core |-> IF psf = 1 THEN P(40) ELSE P(14), tot |-> P(4), r99 |-> P(60)]
\* six decimals of n
Six(n) == RDiv(RRound(RMul(n, 1000000)), 1000000)
Ref(e) ==
  Cl("never-raises", e.ok = 1)
  \cup (IF e.ok # 1 THEN {} ELSE
        Cl("one-row", Len(e.rows) = 1) \cup Cl("columns", {k : k \in DOMAIN e.rows[1]} = {e.names[k] : k \in DOMAIN e.names})
        \cup (IF Len(e.rows) # 1 THEN {} ELSE
              LET w == e.rows[1] n == Six(e.n) b == BN(n) IN
              Consistent(w) \cup Ideal(w, b, n, e.re) \cup Measured(w, b, n, e.re, TolOf(e.psf))))
SameRow(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : RClose(a[k], b[k], E(9), E(9))
Rows(e, rows, refs) ==
  LET c == Len(e.res) IN
  Cl("one-row-per-pair", Len(rows) = Len(e.ns) * c)
  \cup (IF Len(rows) # Len(e.ns) * c THEN {} ELSE
        Cl("ordered-by-n-then-r_eff", \A i \in DOMAIN e.ns : \A j \in DOMAIN e.res :
              LET w == rows[(i - 1) * c + j] IN RClose(w.n, Six(e.ns[i]), E(12), 0) /\ REq(w.r_eff, e.res[j]))
        \cup Cl("row-of-its-own-pair", \A i \in DOMAIN e.ns : \A j \in DOMAIN e.res :
              SameRow(rows[(i - 1) * c + j], refs[e.ref[i][j]].rows[1])))
IsSame(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : DOMAIN a[i] = DOMAIN b[i] /\ \A k \in DOMAIN a[i] : RSame(a[i][k], b[i][k])
File(e) ==
  CASE e.file \in {"new", "overwritten"} -> Cl("file-reads-back-as-the-grid", e.disk.k = "grid" /\ IsSame(e.disk.rows, e.rows) /\ e.disk.names = e.names)
    [] e.file = "kept" -> Cl("existing-file-kept", e.disk.k = "old")
    [] OTHER -> Cl("nothing-else-written", e.disk.k = "absent")
Gen(e, refs) ==
  Cl("never-raises", e.ok = 1)
  \cup (IF e.ok # 1 THEN {} ELSE
        Cl("columns", e.names = refs[1].names)
        \cup Rows(e, e.rows, refs) \cup File(e) \cup Cl("only-the-named-file", e.others = 0))
  \cup Cl("arguments-not-modified", e.before = e.after)
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(T) /\ l' = l + 1 /\ UNCHANGED tid
        /\ Report(tid, l, RTry(IF T[l].op = "ref" THEN Ref(T[l]) ELSE Gen(T[l], T), {"unexpected-result"}))
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
