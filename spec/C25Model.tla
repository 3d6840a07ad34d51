----------------------------- MODULE C25Model -----------------------------
(* Figures asked for between changes of a Petrosian object's settings, and  *)
(* single figures of every other kind.                                      *)
EXTENDS PetroObj, TLC, Json
CONSTANT Depth
VARIABLES heap, hist
vars == <<heap, hist>>
S0 == [eta |-> 0, eps |-> 0, epsf |-> 0, tff |-> 0, kind |-> 0, num |-> 0]
Bit == {0, 1}
Curves == {[op |-> o, radii |-> r, given |-> g, legend |-> l, unit |-> u] :
             o \in {"profile", "cog"}, r \in Bit, g \in Bit, l \in Bit, u \in {"pix", "arcsec", "none"}}
Figures == {f \in Curves : f.legend = 1 \/ f.unit = "pix"}
           \cup {[op |-> "overlay", radii |-> 1, given |-> 0, legend |-> l, unit |-> "pix"] : l \in Bit}
Set(f, v) == [op |-> "set", h |-> 1, field |-> f, val |-> v]
Init == heap = <<S0>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E f \in Fields \ {"num"}, v \in Bit : /\ heap[1][f] # v /\ heap' = After(heap, Set(f, v))
                                                    /\ hist' = Append(hist, Set(f, v))
           \/ \E f \in Figures : heap' = After(heap, f) /\ hist' = Append(hist, f)
\* a figure changes no setting
Pure == [][hist'[Len(hist')].op # "set" => heap' = heap]_vars
Emit == (Len(hist) = Depth /\ hist[Depth].op # "set") => PrintT(<<"CASE", ToJson(hist)>>)
===========================================================================
