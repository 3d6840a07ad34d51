-------------------------------- MODULE C14 --------------------------------
(* Recorded assignments and constructions follow the configuration machine. *)
EXTENDS Trace, PsfConfig
VARIABLES tid, l, c

Norm(x) == x.t = "none" \/ x.s \in {"norm", "norm-rounded"}
Read(e, c2) == e.got.os = c2.os /\ e.got.po = c2.po /\ e.got.psf = c2.psf
Base == [os |-> None_, po |-> None_, psf |-> None_]
Cfg(e) == [os |-> Stored(e.os), po |-> e.po, psf |-> e.psf]

Failed(e) ==
  IF e.op = "new" THEN
    LET ok == e.model \in {"2d", "compound"} /\ OkNew(e.os, e.po, e.psf) IN
    Cl("construction-accepted-iff-valid", (e.ok = 1) = ok)
    \cup (IF ~ok \/ e.ok # 1 THEN {} ELSE
            Cl("reads-back-as-given", Read(e, Cfg(e)))
            \cup Cl("image-can-be-made", e.model = "2d" => e.img # "exc"))
    \cup (IF e.model \in {"2d", "compound"} THEN Cl("warns-iff-unnormalised", (e.warned = 1) = ~Norm(e.psf)) ELSE {})
  ELSE
    LET ok == Accepts(c, e) c2 == Assign(c, e) IN
    Cl("accepted-iff-valid", (e.ok = 1) = ok)
    \cup Cl("reads-back-as-assigned", Read(e, c2))
    \cup (IF ok THEN {} ELSE Cl("rejected-assignment-changes-no-image", e.img = e.img0))
    \cup Cl("image-can-be-made", e.img # "exc")
    \cup (IF e.op = "psf" THEN Cl("warns-iff-unnormalised", (e.warned = 1) = ~Norm(e.x)) ELSE {})

T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ c = Base
Next == /\ l <= Len(T)
        /\ Report(tid, l, RTry(Failed(T[l]), {"unexpected-result"}))
        /\ c' = IF T[l].op = "new" THEN IF OkNew(T[l].os, T[l].po, T[l].psf) THEN Cfg(T[l]) ELSE c ELSE Assign(c, T[l])
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1) /\ RTry(Valid(c), TRUE)
============================================================================
