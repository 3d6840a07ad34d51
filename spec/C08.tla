-------------------------------- MODULE C08 --------------------------------
(* Recorded histories of Petrosian objects: every reading of every object   *)
(* equals that of an object freshly built with the settings the             *)
(* specification says the object has.                                       *)
EXTENDS Petro, PetroObj
VARIABLES tid, l, heap

\* readings of freshly built objects: <<[data, s, v], ...>>
Fresh == NN(JsonDeserialize(IOEnv.VF_FRESH))
SameS(s, t) == \A f \in Fields : REq(s[f], t[f])
FreshOf(data, s) ==
  LET i == SelectInSeq(Fresh, LAMBDA r : r.data = data /\ SameS(r.s, s)) IN Fresh[i]

Aliases(v) ==
  /\ Agree(v["r_50"], v["r_half_light"], 0) /\ Agree(v["r_50_err"], v["r_half_light_err"], 0)
  /\ Agree(v["c2080"], v["conc2080"], 0) /\ Agree(v["c5090"], v["conc5090"], 0)
  /\ Agree(v["fraction50"], v["r_half_light"], 0)

ReadBad(data, h, e) ==     \* a reading of object h
  LET v == e.v s == heap[h] IN
  Cl("settings-read-back", REq(v["eta"], s.eta) /\ REq(v["epsilon"], s.eps)
                           /\ REq(v["epsilon_fraction"], s.epsf) /\ REq(v["total_flux_fraction"], s.tff))
  \cup Cl("equals-fresh-object", Agree(v, FreshOf(data, s).v, E(9)))
  \cup Cl("aliases-agree", Aliases(v))
  \cup Cl("r-epsilon", RClose(v["r_epsilon"], RMul(v["r_petrosian"], s.eps), E(9), 0))
  \cup Cl("range-flag", v["in_range"] = (~RIsNaN(v["r_epsilon"]) /\ RLe(v["rmin"], v["r_epsilon"]) /\ RLe(v["r_epsilon"], v["rmax"])))

Failed(e, data) ==
  Cl("never-raises", e.ok = 1)
  \cup (IF e.ok # 1 THEN {} ELSE
     IF e.op = "read" THEN ReadBad(data, e.h, e)
     ELSE IF e.op = "correct"
     THEN Cl("corrected-epsilon", RClose(e.val, FreshOf(data, heap[e.h]).est, E(9), 0)
                                  \/ RIsNaN(e.val))
     ELSE {})
  \cup Cl("arrays-given-not-modified", e.after = e.before)

T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ heap = <<Traces[tid][1].s>>
Next == /\ l <= Len(T)
        /\ IF l = 1 THEN heap' = heap
           ELSE /\ Report(tid, l, RTry(Failed(T[l], T[1].data), {"unexpected-result"}))
                /\ heap' = IF T[l].ok = 1 THEN After(heap, T[l]) ELSE heap
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
