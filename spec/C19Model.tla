----------------------------- MODULE C19Model -----------------------------
(* Histories of calls for default bounds and writes into their results.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, n
Keys == {"none", "amplitude", "n", "c_0", "extra"}     \* what is overridden
Init == hist = <<>> /\ n = 0
Next == /\ Len(hist) < Depth
        /\ \/ \E kind \in {"plain", "gen"}, k \in Keys, how \in {"dict", "default"} :
                /\ (how = "default" => k = "none")
                /\ hist' = Append(hist, [op |-> "call", kind |-> kind, over |-> k, how |-> how, i |-> 0]) /\ n' = n + 1
           \/ \E i \in 1..n, what \in {"set", "del", "add"} :     \* change an earlier result
                hist' = Append(hist, [op |-> what, kind |-> "", over |-> "", how |-> "", i |-> i]) /\ n' = n
Emit == Len(hist) = Depth => PrintT(<<"CASE", ToJson(hist)>>)
===========================================================================
