-------------------------------- MODULE C06 --------------------------------
(* Petrosian radius: the first crossing of eta, for every recorded profile. *)
EXTENDS Petro
VARIABLES tid, l

Failed(e) ==
  LET o == e.out IN
  Cl("never-raises", Ok(o))
  \cup (IF ~Ok(o) THEN {} ELSE
       Cl("first-crossing-of-eta", RpOK(e.kind, e.num, e.r, e.p, e.eta, o.v.rp))
       \cup Cl("nan-or-measured-radius",
               RIsNaN(o.v.rp) \/ (RLe(0, o.v.rp) /\ RLe(o.v.rp, RMul(SeqMax(e.r), RAdd(1, E(9)))))))
  \cup Cl("inputs-not-modified", e.after = e.before)

Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[tid])
        /\ Report(tid, l, RTry(Failed(Traces[tid][l]), {"unexpected-result"}))
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
