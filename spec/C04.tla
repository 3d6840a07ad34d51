-------------------------------- MODULE C04 --------------------------------
(* Recorded segmentation maps, catalogues, orderings and accessor results.  *)
EXTENDS Trace, Segments
VARIABLES tid, l
Labels(f) == {f[k] : k \in DOMAIN f} \ {0}
Ints(s) == [k \in DOMAIN s |-> RFloor(s[k])]
AllInt(s) == \A k \in DOMAIN s : RIsNum(s[k]) /\ RIsInt(s[k]) /\ RLe(0, s[k])

\* plain map (e.seg is "None" when nothing is detected)
Plain(e) ==
  LET img == Flat(e.img) nx == Len(e.img[1]) thr == IF IsSeq(e.thr) THEN Flat(e.thr) ELSE [k \in DOMAIN img |-> e.thr]
      want == TLCEval(Kept([k \in DOMAIN img |-> RLt(thr[k], img[k])], nx, RFloor(e.npix)))
  IN IF None(e.seg) THEN Cl("nothing-detected", \A k \in DOMAIN want : want[k] = 0)
     ELSE LET seg == Flat(e.seg) IN
          Cl("labels-are-whole-numbers", AllInt(seg))
          \cup Cl("exactly-the-connected-groups", SameParts(want, Ints(seg)) /\ Labels(Ints(seg)) # {})
Deblended(seg, d) == Cl("deblending-only-splits", AllInt(Flat(d)) /\ Splits(Ints(Flat(seg)), Ints(Flat(d))))

\* accessor results [x, y, elong, ellip, theta] against the catalogue columns (orientation in degrees)
Accessor(r, a) ==
  /\ REq(a.x, r.x) /\ REq(a.y, r.y)
  /\ RClose(a.elong, r.elongation, E(9), 0) /\ RClose(a.ellip, r.ellipticity, E(9), E(9))
  /\ RClose(RMul(a.elong, RSub(1, a.ellip)), 1, E(8), 0)
  /\ RClose(RMul(a.theta, 180), RMul(r.orientation, RPi), E(9), E(9))
\* catalogue of image e.img over map e.used: rows with label, area, flux, maximum and its position
Rows(e) ==
  LET img == Flat(e.img) nx == Len(e.img[1]) u == TLCEval(Ints(Flat(e.used))) rows == e.rows
      Of(r) == {k \in DOMAIN u : u[k] = RFloor(r.label)}
  IN Cl("one-entry-per-label", Len(rows) = Cardinality(Labels(u)) /\ {RFloor(rows[i].label) : i \in DOMAIN rows} = Labels(u))
     \cup UNION {LET r == rows[i] S == Of(r) seq == SetToSeq(S) IN
        Cl("area", REq(r.area, Cardinality(S)))
        \cup Cl("flux", LET v == [k \in DOMAIN seq |-> img[seq[k]]] IN
                        RClose(r.flux, RSum(v), E(9), RMul(E(9), RSum([k \in DOMAIN v |-> RAbs(v[k])]))))
        \cup Cl("brightest-pixel", LET k == RFloor(r.y) * nx + RFloor(r.x) + 1 IN
                   k \in S /\ \A m \in S : RLe(img[m], img[k]) /\ REq(r.max, img[k]))
        \cup Cl("accessors-of-a-source", Accessor(r, r.acc))
        \cup Cl("accessors-of-a-table-row", Accessor(r, r.row))
        : i \in DOMAIN rows}

Failed(e) ==
  Cl("never-raises", e.ok = 1)
  \cup (IF e.ok # 1 THEN {} ELSE
     CASE e.op = "segments" -> Plain(e)
       [] e.op = "deblend" -> Deblended(e.seg, e.deb)
       [] e.op = "catalog" -> Plain(e)
            \cup (IF e.deblend = 1 THEN Cl("deblended-map-returned", IsSeq(e.deb)) \cup Deblended(e.seg, e.deb)
                                        \cup Cl("deblended-as-requested", e.deb = e.deb2)
                                        \cup Cl("deblended-map-in-use", e.used = e.deb)
                  ELSE Cl("no-deblended-map", None(e.deb)) \cup Cl("plain-map-in-use", e.used = e.seg))
            \cup Rows(e)
       [] e.op = "order" ->
            LET n == Len(e.col) IN
            Cl("permutation", NumSeq(e.got, n) /\ {RFloor(e.got[i]) : i \in 1..n} = 0..n-1)
            \cup Cl("sorted", \A i \in 1..n-1 : LET a == e.col[RFloor(e.got[i]) + 1] b == e.col[RFloor(e.got[i+1]) + 1] IN
                                               IF e.reverse = 1 THEN RLe(b, a) ELSE RLe(a, b)))
  \cup Cl("arguments-not-modified", e.before = e.after)
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(T)
        /\ Report(tid, l, RTry(Failed(T[l]), {"unexpected-result"}))
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
