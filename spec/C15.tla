-------------------------------- MODULE C15 --------------------------------
(* Recorded histories: every image equals that of a fresh model with the    *)
(* parameters and configuration the specification says the model has.       *)
EXTENDS Trace, PsfHeap
VARIABLES tid, l, heap
Data == NN(JsonDeserialize(IOEnv.VF_FRESH))   \* [images, fresh: <<[par, cfg, region, img]>>]
Img(i) == Data.images[i]
FreshImg(m, region) ==
  LET i == SelectInSeq(Data.fresh, LAMBDA r : r.par = m.par /\ r.region = region /\ r.cfg = m.cfg)
  IN Data.fresh[i].img
SameImg(i, j) == i = j \/ Agree(Img(i), Img(j), E(9))

Failed(e) ==
  IF e.op = "held" THEN Cl("returned-images-unchanged", e.after = e.before)
  ELSE IF e.op = "badcache" THEN Cl("only-true-and-false-accepted", e.ok = 0)
  ELSE IF e.op = "eval" THEN
    Cl("image-can-be-made", e.ok = 1)
    \cup (IF e.ok # 1 THEN {} ELSE Cl("image-equals-fresh-model", SameImg(e.img, FreshImg(heap[e.h], e.v))))
    \cup Cl("coordinates-not-modified", e.after = e.before)
  ELSE IF e.op \in {"oversample", "psf_oversample", "psf"} THEN Cl("accepted-iff-valid", (e.ok = 1) = Accepts(heap[e.h].cfg, e))
  ELSE Cl("never-raises", e.ok = 1) \cup (IF e.op = "cache" THEN Cl("switch-reads-back", e.ok = 1 => e.got = e.v) ELSE {})
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ heap = <<[P0 EXCEPT !.cfg = Traces[tid][1].cfg]>>
Next == /\ l <= Len(T)
        /\ IF l = 1 THEN heap' = heap
           ELSE /\ Report(tid, l, RTry(Failed(T[l]), {"unexpected-result"}))
                /\ heap' = After(heap, T[l])
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
