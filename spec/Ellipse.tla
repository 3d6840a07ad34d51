------------------------------ MODULE Ellipse ------------------------------
(* Overlap of the pixels of an image with an ellipse.                       *)
(* Pixel (i, j) is the unit square centred on x = i, y = j (from 0).        *)
EXTENDS Rat, SequencesExt
\* ellipse with centre (x, y), semi-axes a and b, rotated counter-clockwise by th
Ell(x, y, a, b, th) == [x |-> N(x), y |-> N(y), a |-> N(a), b |-> N(b), c |-> RCos(th), s |-> RSin(th)]
\* coordinates in which the ellipse is the unit circle
UX(sh, px, py) == RRd(RDiv(RAdd(RMul(RSub(px, sh.x), sh.c), RMul(RSub(py, sh.y), sh.s)), sh.a))
UY(sh, px, py) == RRd(RDiv(RSub(RMul(RSub(py, sh.y), sh.c), RMul(RSub(px, sh.x), sh.s)), sh.b))
\* squared elliptical radius: below 1 inside
Quad(sh, px, py) == LET u == UX(sh, px, py) v == UY(sh, px, py) IN RRd(RAdd(RMul(u, u), RMul(v, v)))

Cross(p, q) == RSub(RMul(p[1], q[2]), RMul(p[2], q[1]))
Dot(p, q) == RAdd(RMul(p[1], q[1]), RMul(p[2], q[2]))
Sector(p, q) == RDiv(RAtan2(Cross(p, q), Dot(p, q)), 2)
\* signed area of the unit disc within the triangle (0, p, q)
Wedge(p, q) ==
  LET d == <<RSub(q[1], p[1]), RSub(q[2], p[2])>>
      A == RRd(Dot(d, d)) B == RRd(Dot(p, d)) C == RRd(RSub(Dot(p, p), 1))
      disc == RRd(RSub(RMul(B, B), RMul(A, C)))
  IN IF ~RLt(0, disc) THEN Sector(p, q)
     ELSE LET w == RSqrt(disc)
              lo == RMax(0, RRd(RDiv(RNeg(RAdd(B, w)), A))) hi == RMin(1, RRd(RDiv(RSub(w, B), A)))
              At(t) == <<RRd(RAdd(p[1], RMul(t, d[1]))), RRd(RAdd(p[2], RMul(t, d[2])))>>
          IN IF ~RLt(lo, hi) THEN Sector(p, q)
             ELSE LET u == At(lo) v == At(hi) IN
                  RAdd(RDiv(Cross(u, v), 2),
                       RAdd(IF RLt(0, lo) THEN Sector(p, u) ELSE N(0), IF RLt(hi, 1) THEN Sector(v, q) ELSE N(0)))
\* fraction of pixel (i, j) covered by the ellipse (Java code: java/vfx/EllipseOverrides.java)
Covered(sh, i, j) ==
  LET h == RQ(1, 2)
      P(sx, sy) == <<UX(sh, RAdd(i, sx), RAdd(j, sy)), UY(sh, RAdd(i, sx), RAdd(j, sy))>>
      p == <<P(RNeg(h), RNeg(h)), P(h, RNeg(h)), P(h, h), P(RNeg(h), h)>>
      area == RMul(RMul(sh.a, sh.b), RSum(<<Wedge(p[1], p[2]), Wedge(p[2], p[3]), Wedge(p[3], p[4]), Wedge(p[4], p[1])>>))
  IN RMax(0, RMin(1, RRd(area)))

\* the ellipse touches an edge line of pixel (i, j) without crossing it, or passes through one of its
\* corners (to 1e-9): limits of the exact-overlap routine of the photutils library
Degenerate(sh, i, j) ==
  LET h == RQ(1, 2) tiny == RQ(1, 1000000000)
      P(sx, sy) == <<UX(sh, RAdd(i, sx), RAdd(j, sy)), UY(sh, RAdd(i, sx), RAdd(j, sy))>>
      p == <<P(RNeg(h), RNeg(h)), P(h, RNeg(h)), P(h, h), P(RNeg(h), h)>>
      Touch(u, v) == LET d == <<RSub(v[1], u[1]), RSub(v[2], u[2])>> A == Dot(d, d) B == Dot(u, d) C == RSub(Dot(u, u), 1)
                     IN RLe(RAbs(RSub(RMul(B, B), RMul(A, C))), RMul(tiny, A))
  IN \/ \E k \in 1..4 : RLe(RAbs(RSub(Dot(p[k], p[k]), 1)), tiny)
     \/ \E k \in 1..4 : Touch(p[k], p[IF k = 4 THEN 1 ELSE k + 1])

\* fraction of the k x k points of pixel (i, j) inside the ellipse: <<at least, at most>>
LOCAL Eps == RQ(1, 1000000000)
Counted(sh, i, j, k) ==
  LET At(m) == RQ(2 * m - 1 - k, 2 * k)                      \* offset of the m-th point
      q == TLCEval([m \in 1..k |-> [n \in 1..k |-> Quad(sh, RAdd(i, At(m)), RAdd(j, At(n)))]])
      all == FlattenSeq(q)
      sure == Len(SelectSeq(all, LAMBDA z : RLt(z, RSub(1, Eps))))
      may == Len(SelectSeq(all, LAMBDA z : RLt(z, RAdd(1, Eps))))
  IN <<RQ(sure, k * k), RQ(may, k * k)>>
\* the pixel may touch the ellipse
Touches(sh, i, j) == RLe(Quad(sh, i, j), LET m == RAdd(1, RDiv(RQ(708, 1000), RMin(sh.a, sh.b))) IN RMul(m, m))
Weight(sh, method, i, j) ==
  IF ~Touches(sh, i, j) THEN <<N(0), N(0)>>
  ELSE CASE method = "exact" -> LET w == Covered(sh, i, j) IN <<w, w>>
         [] method = "center" -> Counted(sh, i, j, 1)
         [] method = "subpixel" -> Counted(sh, i, j, 5)
\* as Weight; a degenerate pixel may have any weight
LooseWeight(sh, method, i, j) ==
  IF method = "exact" /\ Touches(sh, i, j) /\ Degenerate(sh, i, j) THEN <<N(0), N(1)>> ELSE Weight(sh, method, i, j)
===========================================================================
