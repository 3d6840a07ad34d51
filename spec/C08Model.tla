------------------------------ MODULE C08Model ------------------------------
(* All histories of operations on Petrosian objects up to a depth.  Values  *)
(* of settings are indices 0, 1 (2 stands for a corrected epsilon).         *)
EXTENDS PetroObj, TLC, Json
CONSTANTS Depth, MaxObj
VARIABLES heap, hist
vars == <<heap, hist>>

S0 == [eta |-> 0, eps |-> 0, epsf |-> 0, tff |-> 0, kind |-> 0, num |-> 0]
Ops(n) ==
  {[op |-> "set", h |-> h, field |-> f, val |-> v] : h \in 1..n, f \in Fields, v \in {0, 1}}
  \cup {[op |-> o, h |-> h, field |-> "", val |-> 0] : h \in 1..n, o \in {"read", "plot", "plot_cog", "imshow"}}
  \cup (IF n < MaxObj
        THEN {[op |-> o, h |-> h, field |-> "", val |-> IF o = "correct" THEN 2 ELSE 0] :
                h \in 1..n, o \in {"copy", "deepcopy", "correct"}} ELSE {})
  \cup {[op |-> "mutate", h |-> 0, field |-> "", val |-> 0]}
\* setting a value that is already set is kept only for the last object
Useful(e) == e.op = "set" => heap[e.h][e.field] # e.val

Init == heap = <<S0>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E e \in Ops(Len(heap)) : Useful(e) /\ heap' = After(heap, e) /\ hist' = Append(hist, e)
\* operations on one object leave every other object alone; new objects are copies
Isolated == [][\A h \in 1..Len(heap) :
                 heap'[h] # heap[h] => /\ hist'[Len(hist')].op = "set" /\ hist'[Len(hist')].h = h]_vars
CopyEq == [][Len(heap') > Len(heap) =>
               \A f \in Fields \ {"eps"} : heap'[Len(heap')][f] = heap[hist'[Len(hist')].h][f]]_vars
Emit == Len(hist) = Depth => PrintT(<<"CASE", ToJson(hist)>>)
=============================================================================
