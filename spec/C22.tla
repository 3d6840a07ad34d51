-------------------------------- MODULE C22 --------------------------------
(* Recorded sessions of public calls: contents of the shared inputs and     *)
(* settings stay, results are those of the call made alone on fresh inputs. *)
EXTENDS Trace, Purity
VARIABLES tid, l, content, settings
Refs == NN(JsonDeserialize(IOEnv.VF_REFS))
RefOf(c) == Refs[SelectInSeq(Refs, LAMBDA r : r.call = c)]
\* (results may differ by rounding: sums of the same numbers in another order)
SameResult(e, r) == e.dig = r.dig \/ Agree(e.v, r.v, E(7))
Failed(e) ==
  LET r == RefOf(Call(e)) c == Contents(content, e) s == Settings(settings, e) IN
  Cl("never-raises:" \o e.call, r.ok = 1 /\ e.ok = 1)
  \cup (IF r.ok = 1 /\ e.ok = 1 THEN Cl("same-result-as-alone:" \o e.call, SameResult(e, r)) ELSE {})
  \cup UNION {Cl("changes:" \o o, o \in DOMAIN e.seen /\ e.seen[o] = c[o]) : o \in DOMAIN c}
  \cup UNION {Cl("changes-settings-of:" \o o, e.settings[o] = s[o]) : o \in DOMAIN s}
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ content = Traces[tid][1].seen /\ settings = Traces[tid][1].settings
Next == /\ l <= Len(T)
        /\ IF l = 1 THEN UNCHANGED <<content, settings>>
           ELSE /\ Report(tid, l, RTry(Failed(T[l]), {"unexpected-result"}))
                /\ content' = T[l].seen /\ settings' = T[l].settings    \* (a change is reported once)
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
