----------------------------- MODULE C21Model -----------------------------
(* All small inputs of the search and sorting helpers.                      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLE c
V == {"0", "1", "2", "nan"}
Arr(n) == [1..n -> V]
Words == {"a", "B", "a1", "a10", "a2", "A2", "1", "01", "10", "b2a", "", "a 1", "a1b", "_1"}
Init == \/ \E n \in 1..MaxLen : \E a \in Arr(n), v \in {-1, 0, 1, 2, 3, 5}, g \in {0, 1} :
             c = [op |-> "closest", a |-> a, v2 |-> v, grow |-> g]
        \/ \E x, y, z \in Words : c = [op |-> "sort", words |-> <<x, y, z>>]
Next == UNCHANGED c
Emit == PrintT(<<"CASE", ToJson(c)>>)
===========================================================================
