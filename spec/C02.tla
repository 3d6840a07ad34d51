-------------------------------- MODULE C02 --------------------------------
(* Recorded histories of masking calls.  The first event records the shared *)
(* objects; every later event records one call and the objects after it.    *)
EXTENDS Trace, MaskHeap
VARIABLES tid, l
T == Traces[tid]
Heap == T[1].heap
Same2(a, b) == IsSeq(a) /\ Len(a) = Len(b) /\ \A j \in DOMAIN b : IsSeq(a[j]) /\ SameSeq(a[j], b[j])
Failed(e) ==
  IF e.op = "heap" THEN {}
  ELSE
    LET seg == Heap.seg img == IF e.op = "image" THEN Heap.images[e.img] ELSE seg IN
    Cl("never-raises", e.ok = 1)
    \cup (IF e.ok # 1 THEN {} ELSE
       IF e.op = "mask" THEN Cl("mask-is-boolean", e.dtype = "bool") \cup Cl("exactly-the-requested-pixels", Same2(e.out, MaskOf(seg, e.labels, e.bg = 1)))
       ELSE Cl("image-inside-fill-outside", Same2(e.out, ImageOf(img, seg, e.labels, e.bg = 1, IF e.fill = "default" THEN RDiv(0, 0) ELSE N(e.fillvalue))))
          \cup Cl("same-kind-of-image", e.same = 1)
          \cup Cl("result-is-a-copy", e.shared = 0))
    \cup Cl("lists-not-modified", e.lists = T[1].lists)
    \cup Cl("objects-not-modified", e.digest = T[1].digest)
    \cup Cl("earlier-results-not-modified", e.earlier = 0)
Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(T)
        /\ Report(tid, l, RTry(Failed(T[l]), {"unexpected-result"}))
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
