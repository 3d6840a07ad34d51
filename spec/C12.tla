-------------------------------- MODULE C12 --------------------------------
(* Recorded images and grids against the documented pixel coordinates.      *)
EXTENDS Trace, Light
VARIABLES tid, l

Size(e) == IF Len(e.size) = 2 THEN <<e.size[2], e.size[2]>> ELSE <<e.size[2], e.size[3]>>
Valid(e) == e.size[1] # "bad"
\* coordinates of the first pixel
Origin(e) ==
  IF e.centre = <<>> THEN <<0, 0>>
  ELSE LET s == Size(e) IN [k \in 1..2 |-> RSub(RQ(e.centre[k], 2), s[k] \div 2)]

Mod(a, b) == a % b
Mean(s) == RDiv(RSum(s), Len(s))
\* mean over the f x f centres of the cells that divide the pixel box of (x, y)
Cells(m, x, y, f) ==
  Mean([k \in 1..f*f |->
     LET a == Mod(k - 1, f) b == (k - 1) \div f
     IN LightAt(m, RAdd(RSub(x, RQ(1, 2)), RQ(2 * a + 1, 2 * f)), RAdd(RSub(y, RQ(1, 2)), RQ(2 * b + 1, 2 * f)))])
Corners(m, x, y) ==
  LET h == RQ(1, 2) IN
  Mean(<<LightAt(m, RAdd(x, h), RAdd(y, h)), LightAt(m, RAdd(x, h), RSub(y, h)),
         LightAt(m, RSub(x, h), RAdd(y, h)), LightAt(m, RSub(x, h), RSub(y, h))>>)
\* integral over the pixel box: exact for a polynomial of degree 2 (Simpson's rule is exact there)
Simpson(m, x, y) ==
  LET h == RQ(1, 2) w == <<1, 4, 1>> d == <<RNeg(h), 0, h>> IN
  RDiv(RSum([k \in 1..9 |-> LET a == Mod(k - 1, 3) + 1 b == (k - 1) \div 3 + 1 IN
                            RMul(w[a] * w[b], LightAt(m, RAdd(x, d[a]), RAdd(y, d[b])))]), 36)
Pixel(e, m, x, y) ==
  CASE e.mode \in {"center", "default"} -> LightAt(m, x, y)
    [] e.mode = "linear_interp" -> Corners(m, x, y)
    [] e.mode = "oversample" -> Cells(m, x, y, e.factor)
    [] e.mode = "integrate" -> Simpson(m, x, y)

Shape(v, nx, ny) == IsSeq(v) /\ Len(v) = ny /\ \A j \in 1..ny : NumSeq(v[j], nx)
ImageOk(e) ==
  LET m == Prep(e.m) s == Size(e) o == Origin(e) IN
  Cl("shape", Shape(e.img, s[1], s[2]))
  \cup Cl("pixel-values", \A j \in 1..s[2] : \A i \in 1..s[1] :
          RClose(e.img[j][i], Pixel(e, m, RAdd(o[1], i - 1), RAdd(o[2], j - 1)), E(7), E(9)))
\* a sampling grid: s*f points per axis spaced 1/f, pixel means = pixel centres
GridOk(e) ==
  LET n == e.size[2] f == e.factor t == n * f
      o == e.origin
      At(k, d) == RAdd(o[d], RSub(RQ(2 * k - 1, 2 * f), RQ(1, 2)))
  IN Cl("grid-shape", Shape(e.gx, t, t) /\ Shape(e.gy, t, t))
     \cup Cl("grid-points", \A j \in 1..t : \A i \in 1..t :
              RClose(e.gx[j][i], At(i, 1), E(12), E(12)) /\ RClose(e.gy[j][i], At(j, 2), E(12), E(12)))
     \cup Cl("block-means-are-pixel-centres", \A p \in 0..n-1 :
              /\ RClose(Mean([k \in 1..f |-> e.gx[1][p * f + k]]), RAdd(o[1], p), E(12), E(12))
              /\ RClose(Mean([k \in 1..f |-> e.gy[p * f + k][1]]), RAdd(o[2], p), E(12), E(12)))
Failed(e) ==
  (IF Valid(e)
   THEN Cl("accepted", e.ok = 1) \cup (IF e.ok # 1 THEN {} ELSE IF e.op = "grid" THEN GridOk(e) ELSE ImageOk(e))
   ELSE Cl("bad-size-rejected", e.ok = 0))
  \cup Cl("model-not-modified", e.after = e.before)
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(T)
        /\ Report(tid, l, RTry(Failed(T[l]), {"unexpected-result"}))
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
