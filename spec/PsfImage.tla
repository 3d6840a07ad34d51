----------------------------- MODULE PsfImage -----------------------------
(* The image of a PSF-convolved model: sample, average to PSF resolution,   *)
(* convolve, average to pixels.                                             *)
EXTENDS Light, FiniteSets
Mod(a, b) == a % b
(* q: the request                                                           *)
(*   m: the wrapped model (prepared)   x0, y0: smallest coordinates         *)
(*   nx, ny: columns and rows spanned  psf: <<rows>>, <<>> for none         *)
(*   os: [t |-> "none" | "int" | "win", f, len, cx, cy]  po: 1, 2, ...      *)
(* square: whether window pixels count up to the square region or the image *)
InWindow(q, i, j, square) ==
  LET o == q.os
      wx == RSub(RRound(o.cx), o.len \div 2) wy == RSub(RRound(o.cy), o.len \div 2)
      x == RAdd(q.x0, i) y == RAdd(q.y0, j)
  IN /\ o.t = "win"
     /\ RLe(wx, x) /\ RLt(x, RAdd(wx, o.len)) /\ RLe(wy, y) /\ RLt(y, RAdd(wy, o.len))
     /\ (square \/ (i < q.nx /\ j < q.ny))
Factor(q, i, j, square) ==
  IF q.os.t = "int" THEN q.os.f ELSE IF InWindow(q, i, j, square) THEN q.os.f ELSE q.po

Span(q) == IF q.nx < q.ny THEN q.ny ELSE q.nx
\* light of PSF-resolution cell (a, b): the mean of the model over its g x g sub-cells
CellLight(q, a, b, square) ==
  LET g == Factor(q, a \div q.po, b \div q.po, square) \div q.po
      X(o, k, s) == RAdd(RSub(o, RQ(1, 2)), RDiv(RAdd(k, RQ(2 * s + 1, 2 * g)), q.po))
  IN RRd(RDiv(RSum([k \in 1..g*g |-> LightAt(q.m, X(q.x0, a, Mod(k - 1, g)), X(q.y0, b, (k - 1) \div g))]), g * g))
\* rows of the sampled region at PSF resolution, indices 1..n
Sampled(q, square) == LET n == Span(q) * q.po IN
  TLCEval([b \in 1..n |-> TLCEval([a \in 1..n |-> CellLight(q, a - 1, b - 1, square)])])

\* a quarter turn counter-clockwise with the first row at the top
Turn(p) == TLCEval([i \in 1..Len(p[1]) |-> [j \in 1..Len(p) |-> p[j][Len(p[1]) + 1 - i]]])
RECURSIVE Turns(_, _)
Turns(p, k) == IF k = 0 THEN p ELSE Turns(Turn(p), k - 1)

\* convolution, same size, light outside taken as zero; the centre of a PSF of K pixels is pixel (K-1) \div 2
Convolved(s, psf) ==
  IF psf = <<>> THEN s
  ELSE LET n == Len(s) kh == Len(psf) kw == Len(psf[1]) ch == (kh - 1) \div 2 cw == (kw - 1) \div 2
           At(b, a) ==
             LET rows == {v \in 1..kh : b - (v - 1 - ch) \in 1..n} cols == {u \in 1..kw : a - (u - 1 - cw) \in 1..n}
                 R(v) == s[b - (v - 1 - ch)]
             IN RRd(RSum([v \in 1..kh |-> IF v \in rows
                   THEN RSum([u \in 1..kw |-> IF u \in cols THEN RMul(psf[v][u], R(v)[a - (u - 1 - cw)]) ELSE 0]) ELSE 0]))
       IN TLCEval([b \in 1..n |-> TLCEval([a \in 1..n |-> At(b, a)])])
Binned(s, f) ==
  IF f = 1 THEN s
  ELSE LET n == Len(s) \div f IN
       TLCEval([b \in 1..n |-> TLCEval([a \in 1..n |->
          RRd(RDiv(RSum([k \in 1..f*f |-> s[(b - 1) * f + 1 + (k - 1) \div f][(a - 1) * f + 1 + Mod(k - 1, f)]]), f * f))])])
Image(q, square) == Binned(Convolved(Sampled(q, square), q.psf), q.po)
===========================================================================
