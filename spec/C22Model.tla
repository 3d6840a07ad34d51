----------------------------- MODULE C22Model -----------------------------
(* Sessions over shared inputs: every call after every call, with showing   *)
(* on and off where it can be.                                              *)
EXTENDS Purity, TLC, Json
CONSTANTS NCalls, Showing, Objects
VARIABLES content, results, last, now
vars == <<content, results, last, now>>
Events == {[call |-> c, show |-> s] : c \in 1..NCalls, s \in {0}} \cup {[call |-> c, show |-> 1] : c \in Showing}
None == [call |-> 0, show |-> 0]
\* what a call answers: a function of the call and of the contents it reads
Answer(c, e) == <<Call(e), c>>
Init == content = [o \in Objects |-> 0] /\ last = None /\ results = {} /\ \E e \in Events : now = e
Next == /\ last = None
        /\ \E e \in Events : now' = e
        /\ last' = now
        /\ results' = {<<Call(now), Answer(content, now)>>, <<Call(now'), Answer(Contents(content, now), now')>>}
        /\ content' = Contents(Contents(content, now), now')
Unchanged == [][content' = content]_vars
Repeatable == \A a, b \in results : a[1] = b[1] => a = b
Emit == last = None \/ PrintT(<<"CASE", ToJson(<<last, now>>)>>)
===========================================================================
