-------------------------------- MODULE C05 --------------------------------
(* Petrosian profile: every recorded profile follows the definition.        *)
EXTENDS Petro
VARIABLES tid, l

Failed(e) ==
  LET n == Len(e.area)
      valid == ProfileValid(e.area, e.flux)
      o == e.out
      p == o.v.p
      q == o.v.e
      ea == IF None(e.aerr) THEN Zeros(n) ELSE e.aerr
      ef == IF None(e.ferr) THEN Zeros(n) ELSE e.ferr
      anyerr == ~None(e.aerr) \/ ~None(e.ferr)
      first(i) == FirstSame(e.area, i)
      ok(i) == RClose(p[i], ProfileAt(e.area, e.flux, i), E(9), Tiny)
      eok(i) == RClose(RMul(q[i], q[i]), ProfileVarAt(e.area, e.flux, ea, ef, i), E(8), Tiny)
                /\ (RIsNaN(q[i]) \/ RLe(0, q[i]))
  IN Cl("rejects-bad-input", ~valid => ~Ok(o))
     \cup (IF ~valid THEN {} ELSE
       Cl("accepts-valid-input", Ok(o))
       \cup (IF ~Ok(o) THEN {} ELSE
         Cl("one-value-per-aperture", NumSeq(p, n))
         \cup Cl("index-0-is-NaN", RIsNaN(p[1]))
         \cup Cl("annulus-over-mean", \A i \in 1..n : first(i) = i => ok(i))
         \cup Cl("repeated-area", \A i \in 1..n : first(i) # i => ok(i))
         \cup Cl("errors-iff-given", None(q) = ~anyerr)
         \cup (IF ~anyerr THEN {} ELSE
                 Cl("one-error-per-aperture", NumSeq(q, n))
                 \cup Cl("error-propagation", \A i \in 1..n : eok(i)))))
     \cup Cl("inputs-not-modified", e.after = e.before)

Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[tid])
        /\ Report(tid, l, RTry(Failed(Traces[tid][l]), {"unexpected-result"}))
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
