----------------------------- MODULE C16Model -----------------------------
(* Histories over the heap of wrappers, from several starting heaps.         *)
EXTENDS WrapHeap, TLC, Json
CONSTANTS Depth, MaxObj
VARIABLES heap, hist
vars == <<heap, hist>>
G == [t |-> "base", kind |-> "g", names |-> <<"a", "b">>, vals |-> <<3, 2>>, fix |-> <<0, 0>>, bnd |-> <<NoBound, NoBound>>]
C == [G EXCEPT !.kind = "c"]
Op(op, h, p, v) == [op |-> op, h |-> h, p |-> p, v |-> v]
B2 == <<"1", "9">>                          \* lower and upper bound, as numerals
Ops(hp) ==
  {Op("par", h, p, 7 - hp[h].vals[p]) : h \in 1..Len(hp), p \in 1..2}
  \cup {Op("fix", h, 1, 1 - hp[h].fix[1]) : h \in 1..Len(hp)}
  \cup {Op("bnd", h, 2, IF hp[h].bnd[2] = B2 THEN NoBound ELSE B2) : h \in 1..Len(hp)}
  \cup (IF Len(hp) >= MaxObj THEN {} ELSE
         {Op(o, h, 1, 0) : o \in {"wrap", "wrapfix"}, h \in {k \in 1..Len(hp) : ~IsWrap(hp[k])}}
         \cup {Op("wrapbnd", h, 2, B2) : h \in {k \in 1..Len(hp) : ~IsWrap(hp[k])}}
         \cup {Op("sub", h, 1, 0) : h \in {k \in 1..Len(hp) : IsWrap(hp[k])}}
         \cup {Op("copy", h, 1, 0) : h \in 1..Len(hp)})
Prefix(k) == CASE k = 1 -> <<>>
               [] k = 2 -> <<Op("wrap", 1, 1, 0), Op("wrap", 2, 1, 0)>>
               [] k = 3 -> <<Op("wrap", 2, 1, 0), Op("sub", 3, 1, 0)>>
               [] k = 4 -> <<Op("wrap", 1, 1, 0), Op("copy", 3, 1, 0)>>
               [] k = 5 -> <<Op("wrap", 1, 1, 0), Op("fix", 3, 1, 1), Op("par", 3, 1, 4)>>      \* fixed and changed
               [] k = 6 -> <<Op("fix", 1, 1, 1), Op("wrap", 1, 1, 0), Op("sub", 3, 1, 0), Op("par", 3, 1, 4)>>
RECURSIVE Run(_, _)
Run(hp, s) == IF s = <<>> THEN hp ELSE Run(AfterW(hp, Head(s)), SubSeq(s, 2, Len(s)))
Init == \E k \in 1..6 : hist = <<Prefix(k)>> /\ heap = Run(<<G, C>>, Prefix(k))
Next == /\ Len(hist) <= Depth
        /\ \E e \in Ops(heap) : heap' = AfterW(heap, e) /\ hist' = Append(hist, e)
\* isolation: an operation changes no object but the one it names
Isolated == [][\A k \in 1..Len(heap) : k # hist'[Len(hist')].h => heap'[k] = heap[k]]_vars
\* a wrapper's sub-model wrapped again is the wrapper, up to its position angle
RoundTrip == \A k \in 1..Len(heap) : IsWrap(heap[k]) =>
               LET r == WrapOf(SubOf(heap[k])) n == Len(heap[k].names) IN
               \A i \in 1..n-1 : r.vals[i] = heap[k].vals[i] /\ r.fix[i] = heap[k].fix[i] /\ r.bnd[i] = heap[k].bnd[i]
Emit == Len(hist) = Depth + 1 => PrintT(<<"CASE", ToJson(hist)>>)
===========================================================================
