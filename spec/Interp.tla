------------------------------ MODULE Interp ------------------------------
(* Interpolated profiles, sampling grids, and the search for the radius at  *)
(* which a sampled profile first reaches a value.                           *)
EXTENDS Rat, FiniteSets, SequencesExt

SeqMin(s) == FoldLeft(RMin, N(s[1]), s)
SeqMax(s) == FoldLeft(RMax, N(s[1]), s)
--------------------------------------------------------------------------
(* The not-a-knot cubic spline through (x, y), n >= 4: the sequence of its  *)
(* second derivatives at the nodes.  C2, and C3 at the second and the       *)
(* last-but-one node.  Eliminating the end values leaves a tridiagonal      *)
(* system  a_i m_{i-1} + b_i m_i + c_i m_{i+1} = d_i,  i = 2..n-1.          *)
Spline(x, y) ==
  LET n == Len(x)
      h == TLCEval([i \in 1..n-1 |-> RSub(x[i+1], x[i])])
      s == TLCEval([i \in 1..n-1 |-> RDiv(RSub(y[i+1], y[i]), h[i])])
      rhs(i) == RMul(6, RSub(s[i], s[i-1]))
      \* m_1 = ((h1+h2) m_2 - h1 m_3) / h2,  m_n likewise
      a(i) == IF i = n - 1 THEN RSub(h[n-2], RDiv(RMul(h[n-1], h[n-1]), h[n-2])) ELSE h[i-1]
      b(i) == LET base == RMul(2, RAdd(h[i-1], h[i]))
                  l == IF i = 2 THEN RDiv(RMul(h[1], RAdd(h[1], h[2])), h[2]) ELSE 0
                  r == IF i = n - 1 THEN RDiv(RMul(h[n-1], RAdd(h[n-1], h[n-2])), h[n-2]) ELSE 0
              IN RAdd(base, RAdd(l, r))
      c(i) == IF i = 2 THEN RSub(h[2], RDiv(RMul(h[1], h[1]), h[2])) ELSE h[i]
      \* forward sweep: <<c', d'>> for i = 2..n-1 (rounded to doubles to bound their size)
      Fw(acc, i) ==
        IF i = 2 THEN <<<<RRd(RDiv(c(2), b(2))), RRd(RDiv(rhs(2), b(2)))>>>>
        ELSE LET p == acc[i-2]
                 den == RSub(b(i), RMul(a(i), p[1]))
             IN Append(acc, <<RRd(RDiv(c(i), den)), RRd(RDiv(RSub(rhs(i), RMul(a(i), p[2])), den))>>)
      fw == FoldLeft(Fw, <<>>, [i \in 1..n-2 |-> i + 1])
      \* back substitution, from i = n-1 down to 2
      Bw(acc, i) ==
        IF i = n - 1 THEN <<fw[n-2][2]>>
        ELSE <<RRd(RSub(fw[i-1][2], RMul(fw[i-1][1], acc[1])))>> \o acc
      bs == FoldLeft(Bw, <<>>, [i \in 1..n-2 |-> n - i])
      bw == [i \in 2..n-1 |-> bs[i-1]]
      m1 == RDiv(RSub(RMul(RAdd(h[1], h[2]), bw[2]), RMul(h[1], bw[3])), h[2])
      mn == RDiv(RSub(RMul(RAdd(h[n-1], h[n-2]), bw[n-1]), RMul(h[n-1], bw[n-2])), h[n-2])
  IN TLCEval([i \in 1..n |-> IF i = 1 THEN RRd(m1) ELSE IF i = n THEN RRd(mn) ELSE bw[i]])

\* the cubic on segment i (between nodes i and i+1) with second derivatives m
SplineAt(x, y, m, i, t) ==
  LET h == RSub(x[i+1], x[i])
      A == RDiv(RSub(x[i+1], t), h)
      B == RDiv(RSub(t, x[i]), h)
      A3 == RMul(RSub(RMul(A, RMul(A, A)), A), m[i])
      B3 == RMul(RSub(RMul(B, RMul(B, B)), B), m[i+1])
  IN RRd(RAdd(RAdd(RMul(A, y[i]), RMul(B, y[i+1])),
              RDiv(RMul(RAdd(A3, B3), RMul(h, h)), 6)))

\* index of the segment holding t (x increasing), clamped to 1..n-1
RECURSIVE SegFrom(_, _, _)
SegFrom(x, t, i) == IF i >= Len(x) - 1 \/ RLt(t, x[i+1]) THEN i ELSE SegFrom(x, t, i + 1)
Seg(x, t) == SegFrom(x, t, 1)

\* value at t of the interpolant of the given kind; m = Spline(x, y) when kind is cubic
InterpAt(kind, x, y, m, t) ==
  LET i == Seg(x, t)
      h == RSub(x[i+1], x[i])
      u == RSub(t, x[i])
      LinAt == RRd(RAdd(y[i], RMul(RDiv(u, h), RSub(y[i+1], y[i]))))
  IN CASE kind \in {"linear", "slinear"} -> LinAt
       [] kind = "cubic" -> SplineAt(x, y, m, i, t)
       [] kind = "nearest" -> IF RLe(RMul(2, u), h) THEN N(y[i]) ELSE N(y[i+1])
       [] kind = "nearest-up" -> IF RLt(RMul(2, u), h) THEN N(y[i]) ELSE N(y[i+1])
       [] kind \in {"previous", "zero"} -> IF RLe(x[i+1], t) THEN N(y[i+1]) ELSE N(y[i])
       [] kind = "next" -> IF RLe(t, x[i]) THEN N(y[i]) ELSE N(y[i+1])

AnyNaN(y) == \E i \in 1..Len(y) : RIsNaN(y[i])
SplineFor(kind, x, y) == IF kind = "cubic" /\ ~AnyNaN(y) THEN Spline(x, y) ELSE <<>>
\* value at one point (a cubic through a NaN is NaN)
EvalAt(kind, x, y, t) ==
  IF RIsNaN(t) \/ (kind = "cubic" /\ AnyNaN(y)) THEN RQ(0, 0)
  ELSE InterpAt(kind, x, y, SplineFor(kind, x, y), t)

(* The sampling grid: with interpolation off ("None") the data themselves,  *)
(* else max(num, n) uniform points from the smallest to the largest x.      *)
GridX(kind, num, x) ==
  IF kind = "None" THEN x
  ELSE LET n == Len(x) m == IF num < n THEN n ELSE num
           lo == SeqMin(x) st == RDiv(RSub(SeqMax(x), lo), m - 1)
       IN TLCEval([k \in 1..m |-> IF k = m THEN SeqMax(x) ELSE RRd(RAdd(lo, RMul(k - 1, st)))])
GridY(kind, x, y, gx) ==
  IF kind = "None" THEN y
  ELSE IF kind = "cubic" /\ AnyNaN(y) THEN [k \in 1..Len(gx) |-> RQ(0, 0)]
  ELSE LET m == SplineFor(kind, x, y)
       IN TLCEval([k \in 1..Len(gx) |-> InterpAt(kind, x, y, m, gx[k])])

--------------------------------------------------------------------------
(* The first index at which the sampled profile gy reaches the target v     *)
(* (falls to it, or rises to it when growing), then the index up to there   *)
(* whose value is closest to v.  Reach returns the set of admissible        *)
(* answers, 0 standing for "never": values within tol of a comparison may   *)
(* go either way.  With tol = 0 it is the exact definition (first on ties). *)
Down(growing, y, v) == IF growing THEN RSub(v, y) ELSE RSub(y, v)  \* > 0 before the crossing

Reach2(gy, v, growing, tol, btol) ==
  LET n == Len(gy)
      d == TLCEval([k \in 1..n |-> Down(growing, gy[k], v)])
      sure == SelectInSeq(d, LAMBDA z : RLe(z, RNeg(tol)))      \* certainly reached here
      poss == SelectInSeq(d, LAMBDA z : RLe(z, tol))            \* possibly reached here
      lastStop == IF sure = 0 THEN n ELSE sure
      stops == IF poss = 0 THEN {} ELSE {k \in poss..lastStop : RLe(d[k], tol)}
      best(s) == LET ad == TLCEval([k \in 1..s |-> RAbs(d[k])])
                     mn == FoldLeft(LAMBDA x, y : IF RIsNaN(x) THEN y ELSE IF RIsNaN(y) THEN x ELSE RMin(x, y), RQ(0, 0), ad)
                 IN {k \in 1..s : RLe(ad[k], RAdd(mn, RMul(2, btol)))}
  IN (IF sure = 0 THEN {0} ELSE {}) \cup UNION {best(s) : s \in stops}
Reach(gy, v, growing, tol) == Reach2(gy, v, growing, tol, tol)

\* the exact definition (tol = 0, first index on ties): 0 if never reached
ReachExact(gy, v, growing) ==
  LET s == SelectInSeq(gy, LAMBDA z : RLe(Down(growing, z, v), 0))
  IN IF s = 0 THEN 0
     ELSE CHOOSE k \in 1..s :
            /\ \A j \in 1..s : RLe(RAbs(Down(growing, gy[k], v)), RAbs(Down(growing, gy[j], v)))
            /\ \A j \in 1..k-1 : RLt(RAbs(Down(growing, gy[k], v)), RAbs(Down(growing, gy[j], v)))
============================================================================
