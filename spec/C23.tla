-------------------------------- MODULE C23 --------------------------------
(* Recorded cutout subtractions.  Images are sequences of rows.             *)
EXTENDS Trace
VARIABLES tid, l
Covered(e, j, i) ==      \* 0-based pixel (column i, row j); row and column of the target, or <<>>
  LET w == Len(e.t[1]) h == Len(e.t)
      a == i - (e.x - w \div 2) b == j - (e.y - h \div 2)
  IN IF a \in 0..w-1 /\ b \in 0..h-1 THEN <<b + 1, a + 1>> ELSE <<>>
Failed(e) ==
  Cl("never-raises", e.ok = 1)
  \cup (IF e.ok # 1 THEN {} ELSE
    LET h == Len(e.im) w == Len(e.im[1]) IN
    Cl("same-shape", IsSeq(e.out) /\ Len(e.out) = h /\ \A j \in 1..h : NumSeq(e.out[j], w))
    \cup Cl("covered-pixels-reduced-others-unchanged", \A j \in 1..h : \A i \in 1..w :
           LET k == Covered(e, j - 1, i - 1) v == e.im[j][i] IN
           IF k = <<>> THEN RSame(e.out[j][i], v) ELSE RClose(e.out[j][i], RSub(v, e.t[k[1]][k[2]]), E(6), E(6)))
    \cup Cl("new-image", e.shared = 0))
  \cup Cl("image-not-modified", e.im1 = e.im0) \cup Cl("target-not-modified", e.t1 = e.t0)
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(T)
        /\ Report(tid, l, RTry(Failed(T[l]), {"unexpected-result"}))
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
