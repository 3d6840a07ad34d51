----------------------------- MODULE C02Model -----------------------------
(* All short histories of mask requests over shared lists, maps and images. *)
(* The state keeps the shared lists; since calls are pure they never change, *)
(* so the answer to a call does not depend on the history (Pure below).     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Len1, Wide
VARIABLES lists, hist
Lists == [a |-> <<1>>, b |-> <<3, 1>>, e |-> << >>, r |-> <<2, 2>>, x |-> <<7>>, z |-> <<0>>]
Narrow == {"list-a", "list-b", "list-e"}
Sources == Narrow \cup (IF Wide THEN {"list-r", "list-x", "list-z", "label-1", "label-9", "label-0", "numpy-2", "cat-1", "cat-3", "slice-2",
                                     "mixed"} ELSE {})
Calls == [op : {"mask"}, src : Sources, bg : {0, 1}, img : {"none"}, fill : {"none"}]
    \cup [op : {"image"}, src : Sources, bg : {0, 1}, img : IF Wide THEN {"float", "int", "ccd", "float32", "strided"} ELSE {"float", "ccd"},
          fill : IF Wide THEN {"default", "zero", "value"} ELSE {"default", "zero"}]
Init == lists = Lists /\ hist = << >>
Call(c) == Len(hist) < Len1 /\ hist' = Append(hist, c) /\ UNCHANGED lists
Next == \E c \in Calls : Call(c)
Pure == lists = Lists
Emit == Len(hist) = Len1 => PrintT(<<"CASE", ToJson(hist)>>)
===========================================================================
