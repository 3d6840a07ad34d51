-------------------------------- MODULE C21 --------------------------------
(* Recorded results of the search, sampling, sorting and matching helpers.  *)
EXTENDS Trace, Interp
VARIABLES tid, l

\* closest value: index (0-based) or "None"
Closest(e) ==
  LET n == Len(e.a)
      Reached(i) == ~RIsNaN(e.a[i]) /\ IF e.grow = 1 THEN RLe(e.value, e.a[i]) ELSE RLe(e.a[i], e.value)
      stop == SelectInSeq([i \in 1..n |-> i], LAMBDA i : Reached(i))
      d(i) == RAbs(RSub(e.a[i], e.value))
      \* nearest element up to the stop, first on ties
      want == CHOOSE k \in 1..stop : /\ ~RIsNaN(e.a[k])
                                     /\ \A j \in 1..stop : ~RIsNaN(e.a[j]) => RLe(d(k), d(j)) /\ (j < k => RLt(d(k), d(j)))
  IN IF stop = 0 THEN Cl("none-when-never-reached", None(e.got))
     ELSE Cl("nearest-up-to-first-crossing", IsNum(e.got) /\ REq(e.got, want - 1))

\* step interpolants may fall on either side of a step at a node or a middle
NearStep(e, xs, ys, k, tol) ==
  e.kind \in {"nearest", "previous", "zero", "next"} /\
  \E i \in 1..Len(xs)-1 :
     /\ \/ RClose(e.gx[k], xs[i], E(12), E(12)) \/ RClose(e.gx[k], xs[i+1], E(12), E(12))
        \/ (e.kind = "nearest" /\ RClose(RMul(2, e.gx[k]), RAdd(xs[i], xs[i+1]), E(12), E(12)))
     /\ (RClose(e.gy[k], ys[i], 0, tol) \/ RClose(e.gy[k], ys[i+1], 0, tol))

\* interpolated samples
Sampled(e) ==
  LET n == Len(e.x) m == IF e.num < n THEN n ELSE e.num
      \* the data in order of x
      ord == SortSeq([i \in 1..n |-> i], LAMBDA i, j : RLt(e.x[i], e.x[j]))
      xs == TLCEval([i \in 1..n |-> e.x[ord[i]]]) ys == TLCEval([i \in 1..n |-> e.y[ord[i]]])
      top == FoldLeft(LAMBDA t, v : RMax(t, RAbs(v)), RQ(1, 1), e.y)
      tol == RMul(E(7), top)
  IN IF e.kind = "None" THEN Cl("data-as-they-are", SameSeq(e.gx, e.x) /\ SameSeq(e.gy, e.y))
     ELSE Cl("number-of-samples", NumSeq(e.gx, m) /\ NumSeq(e.gy, m))
       \cup Cl("uniform-from-smallest-to-largest", \A k \in 1..m :
              RClose(e.gx[k], RAdd(xs[1], RMul(RQ(k - 1, m - 1), RSub(xs[n], xs[1]))), E(12), RMul(E(12), RAdd(RAbs(xs[1]), RAbs(xs[n])))))
       \cup (IF e.kind \in {"linear", "slinear", "nearest", "previous", "zero", "next", "cubic"}
             THEN LET sp == SplineFor(e.kind, xs, ys) IN
                  Cl("interpolant", \A k \in 1..m : RClose(e.gy[k], InterpAt(e.kind, xs, ys, sp, e.gx[k]), 0, tol) \/ NearStep(e, xs, ys, k, tol))
             ELSE {})
       \cup (IF e.kind \in {"linear", "slinear", "cubic", "quadratic"}
             THEN Cl("passes-through-the-data", \A i \in 1..n : \A k \in 1..m :
                     RClose(e.gx[k], xs[i], E(13), 0) => RClose(e.gy[k], ys[i], 0, tol))
             ELSE {})
\* radius lists
Radii(e) ==
  LET n == e.n IN
  Cl("n-radii", NumSeq(e.got, n))
  \cup Cl("positive-and-increasing", RLt(0, e.got[1]) /\ \A i \in 1..n-1 : RLt(e.got[i], e.got[i+1]))
  \cup Cl("ends-at-the-maximum", RClose(e.got[n], e.max, E(12), 0))
  \cup (IF e.log = 1
        THEN Cl("even-in-logarithm-from-1", \A i \in 1..n : RClose(e.got[i], RPow(e.max, RQ(i - 1, n - 1)), E(10), 0))
        ELSE Cl("even-from-max/n", \A i \in 1..n : RClose(e.got[i], RDiv(RMul(i, e.max), n), E(12), 0)))

\* natural sort: words are sequences of character codes
Mod(a, b) == a % b
IsDigit(ch) == ch \in 48..57
Lower(ch) == IF ch \in 65..90 THEN ch + 32 ELSE ch
\* tokens <<text, number, text, number, ..., text>>; text and digit runs as sequences
Tokens(w) ==
  LET Step(t, ch) ==
        LET k == Len(t) IN
        IF IsDigit(ch) = (Mod(k, 2) = 0) THEN [t EXCEPT ![k] = Append(@, IF IsDigit(ch) THEN ch - 48 ELSE Lower(ch))]
        ELSE Append(t, <<IF IsDigit(ch) THEN ch - 48 ELSE Lower(ch)>>)
      t == FoldLeft(Step, <<<<>>>>, w)
  IN IF Mod(Len(t), 2) = 0 THEN Append(t, <<>>) ELSE t
Strip(ds) == LET i == SelectInSeq(ds, LAMBDA z : z # 0) IN IF i = 0 THEN <<>> ELSE SubSeq(ds, i, Len(ds))
\* -1, 0, 1: lexicographic comparison of integer sequences
Lex(s, t) ==
  LET n == Min2(Len(s), Len(t)) i == SelectInSeq([k \in 1..n |-> IF s[k] = t[k] THEN 0 ELSE 1], LAMBDA z : z = 1) IN
  IF i # 0 THEN IF s[i] < t[i] THEN -1 ELSE 1
  ELSE IF Len(s) = Len(t) THEN 0 ELSE IF Len(s) < Len(t) THEN -1 ELSE 1
NumCmp(s, t) == LET a == Strip(s) b == Strip(t) IN
  IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1 ELSE Lex(a, b)
TokCmp(k, s, t) == IF Mod(k, 2) = 1 THEN Lex(s, t) ELSE NumCmp(s, t)
Cmp(v, w) ==
  LET s == Tokens(v) t == Tokens(w) n == Min2(Len(s), Len(t))
      i == SelectInSeq([k \in 1..n |-> TokCmp(k, s[k], t[k])], LAMBDA z : z # 0)
  IN IF i # 0 THEN TokCmp(i, s[i], t[i]) ELSE IF Len(s) = Len(t) THEN 0 ELSE IF Len(s) < Len(t) THEN -1 ELSE 1
Sorted(e) ==
  LET Count(s, w) == Cardinality({i \in DOMAIN s : s[i] = w}) IN
  Cl("permutation", Len(e.got) = Len(e.words) /\ \A i \in DOMAIN e.words : Count(e.got, e.words[i]) = Count(e.words, e.words[i]))
  \cup Cl("natural-order", \A i \in 1..Len(e.got)-1 : Cmp(e.got[i], e.got[i+1]) <= 0)

\* matching: right ascension and declination in degrees; squared chord between directions
Dir(ra, dec) ==
  LET a == RMul(ra, RDiv(RPi, 180)) d == RMul(dec, RDiv(RPi, 180)) IN
  <<RMul(RCos(d), RCos(a)), RMul(RCos(d), RSin(a)), RSin(d)>>
Chord(u, v) == RSum([k \in 1..3 |-> LET z == RSub(u[k], v[k]) IN RMul(z, z)])
Matched(e) ==
  LET A == TLCEval([i \in 1..Len(e.ra1) |-> TLCEval(Dir(e.ra1[i], e.dec1[i]))])
      B == TLCEval([i \in 1..Len(e.ra2) |-> TLCEval(Dir(e.ra2[i], e.dec2[i]))])
      C(i, j) == Chord(A[i], B[j])
  IN Cl("one-match-per-entry", NumSeq(e.idx, Len(A)) /\ \A i \in 1..Len(A) : e.idx[i] \in {N(k) : k \in 0..Len(B)-1} \/ (RIsInt(e.idx[i]) /\ RLe(0, e.idx[i]) /\ RLt(e.idx[i], Len(B))))
     \cup Cl("nearest-entry", \A i \in 1..Len(A) : LET m == RFloor(e.idx[i]) + 1 IN
            \A j \in 1..Len(B) : RLe(C(i, m), RAdd(C(i, j), RAdd(RMul(E(6), C(i, j)), RMul(E(9), E(9))))))
     \cup Cl("separation", \A i \in 1..Len(A) : LET m == RFloor(e.idx[i]) + 1 h == RSin(RDiv(RMul(e.sep[i], RDiv(RPi, 180)), 2)) IN
            RClose(RMul(4, RMul(h, h)), C(i, m), E(5), RMul(E(9), E(9))))
Failed(e) ==
  Cl("never-raises", e.ok = 1)
  \cup (IF e.ok # 1 THEN {} ELSE
     CASE e.op = "closest" -> Closest(e) [] e.op = "samples" -> Sampled(e) [] e.op = "radii" -> Radii(e)
       [] e.op = "sort" -> Sorted(e) [] e.op = "match" -> Matched(e))
  \cup Cl("input-not-modified", e.after = e.before)
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(T)
        /\ Report(tid, l, RTry(Failed(T[l]), {"unexpected-result"}))
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
