-------------------------------- MODULE C25 --------------------------------
(* Recorded figures.  What is drawn on a set of axes is a bag of lines,     *)
(* segments, marks, ellipses, images and legend texts; the specification    *)
(* keeps the settings of the object, and says what must be among them.      *)
EXTENDS Petro, PetroObj
VARIABLES tid, l, heap
Fresh == NN(JsonDeserialize(IOEnv.VF_FRESH))
SameS(s, t) == \A f \in Fields : REq(s[f], t[f])
FreshOf(data, s) == LET i == SelectInSeq(Fresh, LAMBDA r : r.data = data /\ SameS(r.s, s)) IN Fresh[i].v

Is(a, b) == RClose(a, b, E(10), E(12))
Const(s, v) == Len(s) >= 2 /\ \A i \in DOMAIN s : Is(s[i], v)
HLine(a, v) == \E k \in DOMAIN a.lines : Const(a.lines[k].y, v)
Upright(a) == {k \in DOMAIN a.lines : Const(a.lines[k].x, a.lines[k].x[1])}
\* a label or text quotes a value to four decimals
Quotes(nums, v) == \E i \in DOMAIN nums : RClose(nums[i], v, 0, RQ(6, 100000))
VLine(a, v) == \E k \in Upright(a) : Is(a.lines[k].x[1], v)
Curve(a, x, y) == \E k \in DOMAIN a.lines : Agree(a.lines[k].x, x, E(12)) /\ Agree(a.lines[k].y, y, E(12))
Mark(a, x, y) == \E k \in DOMAIN a.marks : Is(a.marks[k][1], x) /\ Is(a.marks[k][2], y)
Stroke(a, x0, y0, x1, y1) == \E k \in DOMAIN a.segs : LET s == a.segs[k] IN Is(s[1][1], x0) /\ Is(s[1][2], y0) /\ Is(s[2][1], x1) /\ Is(s[2][2], y1)
Bars(a, x, y, err) == ~IsSeq(err) \/ \A i \in DOMAIN x : RIsNaN(err[i]) \/ RIsNaN(y[i]) \/ Stroke(a, x[i], RSub(y[i], err[i]), x[i], RAdd(y[i], err[i]))
Quoted(a, e, v) == e.legend = 0 \/ \E k \in DOMAIN a.legend : Quotes(a.legend[k], v)
Def(v) == ~RIsNaN(v)
\* the angle between two ellipse orientations (period pi) is nothing
SameTurn(c, s, c1, s1) == RClose(RSub(RMul(c, s1), RMul(s, c1)), 0, 0, E(9))
Ellipse(a, pos, r, elong, cs) ==
  \E k \in DOMAIN a.ellipses : LET q == a.ellipses[k] IN
    /\ Is(q.x, pos[1]) /\ Is(q.y, pos[2]) /\ Is(q.a, r) /\ Is(RMul(q.b, elong), r)
    /\ (Is(elong, 1) \/ SameTurn(cs[1], cs[2], q.c, q.s))
Shown(a, img) == \E k \in DOMAIN a.images : Agree(a.images[k], img, E(12))

Profile(e, a, p) ==
  Cl("profile-drawn", Curve(a, p.r_list, p.profile))
  \cup Cl("profile-errors-drawn", Bars(a, p.r_list, p.profile, p.profile_err))
  \cup Cl("radii-drawn", e.radii = 0 \/ (HLine(a, p.eta) /\ (Def(p.r_petrosian) => VLine(a, p.r_petrosian) /\ Quoted(a, e, p.r_petrosian))))
  \cup Cl("no-other-radius", \A k \in Upright(a) : e.radii = 1 /\ Is(a.lines[k].x[1], p.r_petrosian))
  \cup Cl("radius-error-drawn", e.radii = 0 \/ ~Def(p.r_petrosian) \/
          (IF Def(p.r_petrosian_err) THEN Stroke(a, RSub(p.r_petrosian, p.r_petrosian_err), p.eta, RAdd(p.r_petrosian, p.r_petrosian_err), p.eta)
           ELSE Mark(a, p.r_petrosian, p.eta)))
Cog(e, a, p) ==
  LET halfl == Def(p.r_half_light) /\ Def(p.half_flux)
      total == Def(p.r_total_flux) /\ Def(p.total_flux)
      Line(r, f) == VLine(a, r) /\ HLine(a, f) /\ Mark(a, r, f) /\ Quoted(a, e, r) IN
  Cl("curve-of-growth-drawn", Curve(a, p.r_list, p.flux_list))
  \cup Cl("flux-errors-drawn", Bars(a, p.r_list, p.flux_list, p.flux_err))
  \cup Cl("radii-drawn", e.radii = 0 \/ ((halfl => Line(p.r_half_light, p.half_flux)) /\ (total => Line(p.r_total_flux, p.total_flux))))
  \cup Cl("no-other-radius", \A k \in Upright(a) : e.radii = 1 /\ (\/ halfl /\ Is(a.lines[k].x[1], p.r_half_light)
                                                                   \/ total /\ Is(a.lines[k].x[1], p.r_total_flux)))
Overlay(e, a, p) ==
  LET rs == SelectSeq(<<p.r_half_light, p.r_total_flux, p.r_20, p.r_80>>, LAMBDA r : Def(r) /\ RLt(0, r)) IN
  Cl("radii-drawn", \A k \in DOMAIN rs : Ellipse(a, e.pos, rs[k], e.elong, e.cs))
  \cup Cl("no-other-radius", Len(a.ellipses) = Len(rs))
  \cup Cl("position-marked", Mark(a, e.pos[1], e.pos[2]))
Target(e, a) ==
  Cl("image-shown", Shown(a, e.img)) \cup Cl("position-marked", Mark(a, e.pos[1], e.pos[2]))
  \cup Cl("window", LET h == RDiv(e.size, 2) IN Agree(a.xlim, <<RSub(e.pos[1], h), RAdd(e.pos[1], h)>>, E(12))
                                              /\ Agree(a.ylim, <<RSub(e.pos[2], h), RAdd(e.pos[2], h)>>, E(12)))
Apertures(e, a) ==
  Cl("image-shown", e.img = <<>> \/ Shown(a, e.img))
  \cup Cl("apertures-outlined", Len(a.ellipses) = Len(e.radiuses) /\ \A k \in DOMAIN e.radiuses : Ellipse(a, e.pos, e.radiuses[k], e.elong, e.cs))
Segments(e, a) == Cl("image-shown", e.img = <<>> \/ Shown(a, e.img)) \cup Cl("segments-shown", Shown(a, e.segm))
Residual(e, a) == Cl("sources-removed", Shown(a, [j \in DOMAIN e.img |-> [i \in DOMAIN e.img[j] |-> IF REq(e.segm[j][i], 0) THEN e.img[j][i] ELSE 0]]))
Source(e) ==
  LET a == e.panels[1] b == e.panels[2] n == Len(a.images[1]) \div 2 + 1
      Slice(q, s) == \E k \in DOMAIN q.lines : Agree(q.lines[k].y, s, E(12)) IN
  Cl("apertures-outlined", Len(a.ellipses) = Len(e.radiuses) /\ \A k \in DOMAIN e.radiuses : Ellipse(a, <<n - 1, n - 1>>, e.radiuses[k], e.elong, e.cs))
  \cup Cl("curve-of-growth-drawn", Curve(b, e.radiuses, e.flux))
  \cup Cl("radii-drawn", \A k \in DOMAIN e.radiuses : VLine(b, e.radiuses[k]))
  \cup Cl("no-other-radius", \A k \in Upright(b) : \E i \in DOMAIN e.radiuses : Is(b.lines[k].x[1], e.radiuses[i]))
  \cup Cl("slices", Slice(e.panels[3], a.images[1][n]) /\ Slice(e.panels[4], [j \in DOMAIN a.images[1] |-> a.images[1][j][n]]))
Fit(e) ==
  Cl("data-shown", Shown(e.panels[1], e.img)) \cup Cl("model-shown", Shown(e.panels[2], e.model))
  \cup Cl("residual-shown", \E k \in DOMAIN e.panels[3].images : LET q == e.panels[3].images[k] IN
            \A j \in DOMAIN e.img : \A i \in DOMAIN e.img[j] : RIsNaN(e.img[j][i]) \/ RClose(q[j][i], RSub(e.img[j][i], e.model[j][i]), E(9), E(9)))
\* the three planes of a correction grid
Std(s) == LET m == RDiv(RSum(s), Len(s)) IN RSqrt(RRd(RDiv(RSum([k \in DOMAIN s |-> RMul(RSub(s[k], m), RSub(s[k], m))]), Len(s))))
Correction(e) ==
  LET g == e.grid
      sd == TLCEval([k \in 1..3 |-> Std([i \in DOMAIN g |-> g[i][k]])])
      d == TLCEval([i \in DOMAIN g |-> RRd(RSum([k \in 1..3 |-> LET z == RRd(RDiv(RSub(g[i][k], e.m[k]), sd[k])) IN RMul(z, z)]))])
      near == {i \in DOMAIN g : \A j \in DOMAIN g : RLe(d[i], RAdd(RMul(d[j], RAdd(1, E(9))), E(12)))}
      Plane(k, x, y) == LET a == e.panels[k] IN
        /\ \A i \in DOMAIN g : Mark(a, g[i][x], g[i][y])
        /\ Mark(a, e.m[x], e.m[y])
        /\ \E i \in near : \E q \in DOMAIN a.lines : Agree(a.lines[q].x, <<e.m[x], g[i][x]>>, E(12)) /\ Agree(a.lines[q].y, <<e.m[y], g[i][y]>>, E(12)) IN
  Cl("grid-and-nearest-row-drawn", Plane(1, 1, 2) /\ Plane(2, 1, 3) /\ Plane(3, 2, 3))
Failed(e, data) ==
  IF e.op = "set" THEN Cl("never-raises", e.ok = 1)
  ELSE IF e.ok # 1 THEN {"never-raises"}
  ELSE (CASE e.op = "profile" -> Profile(e, e.axes, FreshOf(data, heap[1]))
          [] e.op = "cog" -> Cog(e, e.axes, FreshOf(data, heap[1]))
          [] e.op = "overlay" -> Overlay(e, e.axes, FreshOf(data, heap[1]))
          [] e.op = "target" -> Target(e, e.axes) [] e.op \in {"apertures", "radial"} -> Apertures(e, e.axes)
          [] e.op = "segments" -> Segments(e, e.axes) [] e.op = "residual" -> Residual(e, e.axes)
          [] e.op = "source" -> Source(e) [] e.op = "fit" -> Fit(e) [] e.op = "correction" -> Correction(e))
       \cup Cl("on-the-axes-asked-for", e.others0 = e.others1 /\ e.ret = 1)
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ heap = <<Traces[tid][1].s>>
Next == /\ l <= Len(T)
        /\ IF l = 1 THEN heap' = heap
           ELSE /\ Report(tid, l, RTry(Failed(T[l], T[1].data), {"unexpected-result"}))
                /\ heap' = IF T[l].ok = 1 THEN After(heap, T[l]) ELSE heap
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
