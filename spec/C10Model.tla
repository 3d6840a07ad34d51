----------------------------- MODULE C10Model -----------------------------
(* Sessions with a correction grid: settings of the profile and range       *)
(* enforcement change between corrections, reads and writes.                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES enforce, eta, epsf, start, hist
vars == <<enforce, eta, epsf, start, hist>>
Eta == {"1/5", "3/10", "2/5", "1/2", "1/4", "21/100"}
Epsf == {"1/2", "4/5", "99/100", "9/10", "51/100", "79/100"}
Step(op) == hist' = Append(hist, op)
Init == enforce \in {0, 1} /\ eta \in Eta /\ epsf \in Epsf /\ start = <<enforce, eta, epsf>> /\ hist = <<>>
Ask == /\ \E q \in {"epsilon", "n", "correct", "plot", "io", "lookup"} : Step([op |-> q])
       /\ UNCHANGED <<enforce, eta, epsf>>
SetEnforce == \E b \in {0, 1} \ {enforce} : enforce' = b /\ Step([op |-> "enforce", v |-> b]) /\ UNCHANGED <<eta, epsf>>
SetEta == \E x \in Eta \ {eta} : eta' = x /\ Step([op |-> "eta", v |-> x]) /\ UNCHANGED <<enforce, epsf>>
SetEpsf == \E x \in Epsf \ {epsf} : epsf' = x /\ Step([op |-> "epsf", v |-> x]) /\ UNCHANGED <<enforce, eta>>
Next == Len(hist) < Depth /\ UNCHANGED start /\ (Ask \/ SetEnforce \/ SetEta \/ SetEpsf)
Emit == Len(hist) < Depth \/ PrintT(<<"CASE", ToJson([enforce |-> start[1], eta |-> start[2], epsf |-> start[3], hist |-> hist])>>)
===========================================================================
