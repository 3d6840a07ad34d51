------------------------------ MODULE C15Model ------------------------------
(* Histories of evaluations and changes up to a depth.                      *)
EXTENDS PsfHeap, TLC, Json
CONSTANTS Depth, MaxObj, Regions
VARIABLES heap, hist
vars == <<heap, hist>>
E(op, h, v, x) == [op |-> op, h |-> h, v |-> v, x |-> x]
OsVals == {None_, Int_(2), Seq_("tuple", <<Str_("x_0"), Str_("y_0"), Int_(2), Int_(4)>>),
           Seq_("tuple", <<Int_(1), Int_(2), Int_(3), Int_(2)>>)}
Ops(hp) == LET n == Len(hp) IN
  {E("eval", h, r, None_) : h \in 1..n, r \in 1..Regions}
  \cup {e \in {E("par", h, v, None_) : h \in 1..n, v \in 0..2} : hp[e.h].par # e.v}
  \cup {E("oversample", h, 0, x) : h \in 1..n, x \in OsVals}
  \cup {E("psf_oversample", h, 0, x) : h \in 1..n, x \in {None_, Int_(2)}}
  \cup {E("psf", h, 0, x) : h \in 1..n, x \in {None_, Py("psf", 1, "norm", <<>>), Py("psf", 2, "unnorm", <<>>)}}
  \cup {E("cache", h, IF hp[h].cache THEN 0 ELSE 1, None_) : h \in 1..n}
  \cup {E("clear", h, 0, None_) : h \in 1..n} \cup {E("badcache", h, 0, None_) : h \in 1..n}
  \cup (IF n < MaxObj THEN {E(o, h, 0, None_) : h \in 1..n, o \in {"copy", "deepcopy"}} ELSE {})
Useful(e) == e.op \in {"oversample", "psf_oversample", "psf"} => Assign(heap[e.h].cfg, e) # heap[e.h].cfg
\* every starting configuration: none, oversampled, windowed with an oversampled PSF
Start(k) == CASE k = 1 -> P0.cfg
              [] k = 2 -> [P0.cfg EXCEPT !.psf = Py("psf", 1, "norm", <<>>), !.os = Seq_("tuple", <<Str_("x_0"), Str_("y_0"), Int_(2), Int_(4)>>)]
Init == \E k \in 1..2 : heap = <<[P0 EXCEPT !.cfg = Start(k)]>> /\ hist = <<[op |-> "start", cfg |-> Start(k)]>>
Next == /\ Len(hist) <= Depth
        /\ \E e \in Ops(heap) : Useful(e) /\ heap' = After(heap, e) /\ hist' = Append(hist, e)
\* evaluating, clearing and switching the cache never change what an image depends on
Inert == [][LET e == hist'[Len(hist')] IN e.op \in {"eval", "clear", "badcache", "cache"} =>
              \A h \in 1..Len(heap) : heap'[h].par = heap[h].par /\ heap'[h].cfg = heap[h].cfg]_vars
AllValid == \A h \in 1..Len(heap) : Valid(heap[h].cfg)
Emit == Len(hist) = Depth + 1 => PrintT(<<"CASE", ToJson(hist)>>)
=============================================================================
