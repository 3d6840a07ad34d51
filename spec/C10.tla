-------------------------------- MODULE C10 --------------------------------
(* Recorded sessions with a correction grid.  The specification keeps the   *)
(* settings; the grid is that of the first event.                           *)
EXTENDS Trace
VARIABLES tid, l, set
Std(s) == LET m == RDiv(RSum(s), Len(s)) IN RSqrt(RRd(RDiv(RSum([k \in DOMAIN s |-> RMul(RSub(s[k], m), RSub(s[k], m))]), Len(s))))
Keys == <<"p02", "u_r_50", "u_c2080">>
Col(g, k) == [i \in DOMAIN g |-> g[i][k]]
Least(s) == CHOOSE v \in {N(s[k]) : k \in DOMAIN s} : \A k \in DOMAIN s : RLe(v, s[k])
Most(s) == CHOOSE v \in {N(s[k]) : k \in DOMAIN s} : \A k \in DOMAIN s : RLe(s[k], v)
\* squared distance of a row in standard deviations
Dist(g, sd, m, i) == RRd(RSum([k \in 1..3 |-> LET d == RRd(RDiv(RSub(g[i][Keys[k]], m[k]), sd[k])) IN RMul(d, d)]))
\* rows which may count as nearest
Nearest(g, m) ==
  LET sd == TLCEval([k \in 1..3 |-> Std(Col(g, Keys[k]))])
      d == TLCEval([i \in DOMAIN g |-> Dist(g, sd, m, i)])
      least == Least(d)
  IN {i \in DOMAIN g : RLe(d[i], RAdd(RMul(least, RAdd(1, E(9))), E(12)))}
InRange(g, m) == \A k \in 1..3 : ~RIsNaN(m[k]) /\ RLe(Least(Col(g, Keys[k])), m[k]) /\ RLe(m[k], Most(Col(g, Keys[k])))
\* a measurement at the very edge of the grid may fall on either side
AtEdge(g, m) == \E k \in 1..3 : RClose(m[k], Least(Col(g, Keys[k])), E(9), E(12)) \/ RClose(m[k], Most(Col(g, Keys[k])), E(9), E(12))
Is(a, b) == RClose(a, b, E(12), 0)
PCol(eta) == IF Is(eta, RQ(1, 5)) THEN "p02" ELSE IF Is(eta, RQ(3, 10)) THEN "p03" ELSE IF Is(eta, RQ(2, 5)) THEN "p04" ELSE IF Is(eta, RQ(1, 2)) THEN "p05" ELSE "?"
RCol(f) == IF Is(f, RQ(1, 2)) THEN "c_r_50" ELSE IF Is(f, RQ(4, 5)) THEN "c_r_80" ELSE IF Is(f, RQ(99, 100)) THEN "c_r_99" ELSE "?"
Rejected(g, m, s) == s.enforce = 1 /\ ~InRange(g, m)
Supported(s) == PCol(s.eta) # "?" /\ RCol(s.epsf) # "?"
EpsOf(row, s) == RDiv(row[RCol(s.epsf)], row[PCol(s.eta)])
\* a correction event: whether it may be answered at all, then the answer
Answer(e, g, s, needs, Right(_)) ==
  LET nan == \E k \in 1..3 : RIsNaN(e.m[k]) IN
  IF needs /\ ~Supported(s) THEN Cl("unsupported-setting-rejected", e.ok = 0)
  ELSE IF Rejected(g, e.m, s) THEN (IF ~nan /\ AtEdge(g, e.m) THEN {} ELSE Cl("outside-range-rejected", e.ok = 0))
  ELSE IF nan THEN {}                                     \* nothing is nearest to an unmeasured profile
  ELSE IF e.ok # 1 THEN (IF s.enforce = 1 /\ AtEdge(g, e.m) THEN {} ELSE {"never-raises"})
  ELSE Cl("nearest-row", \E i \in Nearest(g, e.m) : Right(g[i]))
Estimate(e, g, s) == Answer(e, g, s, TRUE, LAMBDA row : RClose(e.v, EpsOf(row, s), E(12), 0))
Index(e, g, s) == Answer(e, g, s, FALSE, LAMBDA row : RClose(e.v, row.n, 0, 0))
Correct(e, g, s) ==
  Answer(e, g, s, TRUE, LAMBDA row : RClose(e.v, EpsOf(row, s), E(12), 0))
  \cup (IF e.ok # 1 THEN {} ELSE
        Cl("new-object", e.same = 0)
        \cup Cl("only-epsilon-differs", e.others = 1)
        \cup Cl("answers-as-a-profile-with-that-epsilon", Agree(e.got, e.want, E(9)))
        \cup Cl("independent-of-the-original", e.apart = 1))
\* a grid read from a file is used as the grid itself is, and enforces its range
Io(e, g, s) ==
  Cl("never-raises", e.ok = 1)
  \cup (IF e.ok # 1 THEN {} ELSE
        Cl("answers-as-the-grid-written", Estimate(e.again, g, [s EXCEPT !.enforce = 1]) = {}) \cup
        Cl("reads-back", Len(e.rows) = Len(g) /\ \A i \in DOMAIN g : \A k \in DOMAIN g[i] : k \in DOMAIN e.rows[i] /\ RSame(e.rows[i][k], g[i][k]))
        \cup Cl("columns-read-back", e.cols = e.cols0)
        \cup Cl("existing-file-kept", e.kept = 1))
\* rows with a given value, and the distinct values in order
Lookup(e, g) ==
  Cl("never-raises", e.ok = 1)
  \cup (IF e.ok # 1 THEN {} ELSE
        Cl("filtered-rows", LET w == SelectSeq([i \in DOMAIN g |-> i], LAMBDA i : REq(g[i][e.key], e.value)) IN
             Len(e.ids) = Len(w) /\ \A i \in DOMAIN w : e.ids[i] = w[i])
        \cup Cl("distinct-values", (\A i \in DOMAIN g : \E j \in DOMAIN e.unique : REq(e.unique[j], g[i][e.key]))
             /\ (\A j \in DOMAIN e.unique : \E i \in DOMAIN g : REq(e.unique[j], g[i][e.key]))
             /\ \A j \in 2..Len(e.unique) : RLt(e.unique[j - 1], e.unique[j]))
        \cup Cl("column-names", e.keys = e.cols0))
Failed(e, g, s) ==
  (CASE e.op = "epsilon" -> Estimate(e, g, s) [] e.op = "n" -> Index(e, g, s) [] e.op = "correct" -> Correct(e, g, s)
     [] e.op = "plot" -> Cl("never-raises", e.ok = 1 \/ \E k \in 1..3 : RIsNaN(e.m[k])) [] e.op = "io" -> Io(e, g, s) [] e.op = "lookup" -> Lookup(e, g)
     [] e.op = "new" -> {} [] OTHER -> Cl("never-raises", e.ok = 1))
  \cup Cl("arguments-not-modified", e.before = e.after)
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ set = [enforce |-> Traces[tid][1].enforce, eta |-> Traces[tid][1].eta, epsf |-> Traces[tid][1].epsf]
Next == /\ l <= Len(T)
        /\ Report(tid, l, RTry(Failed(T[l], T[1].grid, set), {"unexpected-result"}))
        /\ set' = IF T[l].op \in {"enforce", "eta", "epsf"} THEN [set EXCEPT ![T[l].op] = T[l].v] ELSE set
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
