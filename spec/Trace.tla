------------------------------ MODULE Trace ------------------------------
(* Recorded traces: a sequence of traces, each a sequence of events.       *)
EXTENDS Rat, Json, IOUtils, FiniteSets, SequencesExt
Traces == NN(JsonDeserialize(IOEnv.VF_TRACES))

\* a clause: {} if it holds, else the singleton of its name
Cl(name, ok) == IF RTry(ok, FALSE) THEN {} ELSE {name}
Report(t, i, bad) == IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", t, i, bad>>)

Ok(o) == o.ok = 1
None(x) == RKind(x) = "none"
IsSeq(x) == RKind(x) = "seq"
IsNum(x) == RIsNum(x)
\* a sequence of exactly n numbers
NumSeq(s, n) == IsSeq(s) /\ Len(s) = n /\ \A i \in 1..n : RIsNum(s[i])
\* the values agree elementwise: bit-equal (NaN same as NaN)
SameSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : RSame(s[i], t[i])
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
E(k) == IF k <= 9 THEN RQ(1, 10^k) ELSE RMul(RQ(1, 1000000000), RQ(1, 10^(k-9)))   \* 10^-k, k <= 18
Tiny == RMul(E(9), E(9))
\* two recorded values agree: numbers to relative rt, everything else equal
RECURSIVE Agree(_, _, _)
Agree(a, b, rt) ==
  LET k == RKind(a) IN
  /\ k = RKind(b)
  /\ CASE k = "num" -> RClose(a, b, rt, Tiny)
       [] k = "seq" -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : Agree(a[i], b[i], rt)
       [] k = "rec" -> DOMAIN a = DOMAIN b /\ \A i \in DOMAIN a : Agree(a[i], b[i], rt)
       [] OTHER -> a = b
===========================================================================
