----------------------------- MODULE C11Model -----------------------------
(* Generating a grid: a queue of (n, r_eff) pairs worked off by W workers    *)
(* that finish in any order, the collected rows, then the output file.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxW, Shapes        \* Shapes: set of <<number of indices, number of radii>>
VARIABLES shape, w, file, next, running, finished, grid, disk, phase
vars == <<shape, w, file, next, running, finished, grid, disk, phase>>
ShapeSet == {<<a, b>> : a \in 1..3, b \in 1..3}
Tasks == shape[1] * shape[2]
Div(a, b) == a \div b
\* the pair of the k-th row: n first, then r_eff
Pair(k) == <<Div(k - 1, shape[2]) + 1, k - shape[2] * Div(k - 1, shape[2])>>
Files == {"none", "new", "kept", "overwritten", "nodir", "noformat", "isdir"}
Init == /\ shape \in {s \in ShapeSet : s[1] * s[2] <= Shapes} /\ w \in 1..MaxW /\ file \in Files
        /\ (w > 1 => w <= shape[1] * shape[2])
        /\ next = 1 /\ running = {} /\ finished = <<>> /\ grid = <<>> /\ phase = "work"
        /\ disk = IF file \in {"kept", "overwritten"} THEN "old" ELSE "absent"
Start == /\ phase = "work" /\ next <= Tasks /\ Cardinality(running) < w
         /\ running' = running \cup {next} /\ next' = next + 1 /\ UNCHANGED <<shape, w, file, finished, grid, disk, phase>>
\* a free worker takes a pair at once: finishing waits until the workers are busy
Finish == /\ phase = "work" /\ (next > Tasks \/ Cardinality(running) = w)
          /\ \E k \in running : running' = running \ {k} /\ finished' = Append(finished, k)
          /\ UNCHANGED <<shape, w, file, next, grid, disk, phase>>
\* rows are put in the order of the pairs, whatever the order they came in
Place(out) == [k \in 1..Len(out) |-> IF \E j \in 1..Len(out) : out[j] = k THEN Pair(k) ELSE <<0, 0>>]
Collect == /\ phase = "work" /\ Len(finished) = Tasks
           /\ grid' = Place(finished) /\ phase' = "write" /\ UNCHANGED <<shape, w, file, next, running, finished, disk>>
Write == /\ phase = "write" /\ phase' = "done"
         /\ disk' = IF file \in {"new", "overwritten"} THEN "grid" ELSE disk
         /\ UNCHANGED <<shape, w, file, next, running, finished, grid>>
Next == Start \/ Finish \/ Collect \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* one row per pair, n before r_eff
Complete == phase = "done" => Len(grid) = shape[1] * shape[2] /\ \A i \in 1..shape[1], j \in 1..shape[2] : grid[(i - 1) * shape[2] + j] = <<i, j>>
FileRule == phase = "done" => disk = IF file \in {"new", "overwritten"} THEN "grid" ELSE IF file = "kept" THEN "old" ELSE "absent"
NoneLost == running \cap {finished[k] : k \in 1..Len(finished)} = {} /\ Cardinality(running) + Len(finished) = next - 1
Terminates == <>(phase = "done")
Emit == phase = "done" => PrintT(<<"CASE", ToJson([shape |-> shape, w |-> w, file |-> file, order |-> finished])>>)
===========================================================================
