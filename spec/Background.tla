----------------------------- MODULE Background -----------------------------
(* The plane through source-free pixels which survive sigma rejection.      *)
(* A pixel is [x, y, z, w] with x and y integers and w = 1.                 *)
EXTENDS LeastSquares
\* least squares plane <<a, b, c>> of z = a x + b y + c, or <<>> when the pixels do not determine one well
Plane(ps) ==
  LET S(F(_)) == RRd(RSum([k \in DOMAIN ps |-> F(ps[k])]))
      n == Len(ps)
      x == S(LAMBDA p : p.x) y == S(LAMBDA p : p.y) xx == S(LAMBDA p : RMul(p.x, p.x)) xy == S(LAMBDA p : RMul(p.x, p.y))
      yy == S(LAMBDA p : RMul(p.y, p.y)) z == RSum([k \in DOMAIN ps |-> ps[k].z])
      xz == RSum([k \in DOMAIN ps |-> RMul(ps[k].x, ps[k].z)]) yz == RSum([k \in DOMAIN ps |-> RMul(ps[k].y, ps[k].z)])
      \* centred sums
      cxx == RSub(RMul(n, xx), RMul(x, x)) cxy == RSub(RMul(n, xy), RMul(x, y)) cyy == RSub(RMul(n, yy), RMul(y, y))
      cxz == RSub(RMul(n, xz), RMul(x, z)) cyz == RSub(RMul(n, yz), RMul(y, z))
      det == RSub(RMul(cxx, cyy), RMul(cxy, cxy))
  IN IF n < 3 \/ RLe(det, RQ(1, 100)) THEN <<>>
     ELSE LET a == RRd(RDiv(RSub(RMul(cxz, cyy), RMul(cyz, cxy)), det))
              b == RRd(RDiv(RSub(RMul(cyz, cxx), RMul(cxz, cxy)), det))
          IN <<a, b, RRd(RDiv(RSub(z, RAdd(RMul(a, x), RMul(b, y))), n))>>
PlaneAt(q, x, y) == RAdd(RAdd(RMul(q[1], x), RMul(q[2], y)), q[3])
=============================================================================
