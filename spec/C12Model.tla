----------------------------- MODULE C12Model -----------------------------
(* Every request for a model image or a sampling grid over a small domain.  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxSize
VARIABLE c
Sizes == {<<"int", n>> : n \in 1..MaxSize} \cup {<<"float", n>> : n \in {2, 5}} \cup {<<"npint", 3>>, <<"npfloat", 4>>}
         \cup {<<t, a, b>> : t \in {"tuple", "list"}, a \in 1..MaxSize, b \in 1..MaxSize}
         \cup {<<"mixed", 3, 4>>}
Bad == {<<"bad", w>> : w \in {"frac", "fracpair", "none", "str", "one", "three", "nan", "dict"}}
\* centres in half pixels
Centres == {<<>>} \cup {<<a, b>> : a \in {-7, 0, 5, 8}, b \in {-4, 0, 3, 20}}
Modes == {<<"center", 1>>, <<"center", 5>>, <<"linear_interp", 1>>, <<"oversample", 1>>, <<"oversample", 2>>, <<"oversample", 3>>,
          <<"oversample", 10>>, <<"integrate", 1>>, <<"default", 1>>}
Init == \/ \E s \in Sizes \cup Bad, o \in Centres, m \in Modes :
             c = [op |-> "image", size |-> s, centre |-> o, mode |-> m[1], factor |-> m[2]]
        \/ \E n \in 1..MaxSize, f \in 1..6, o \in Centres :
             c = [op |-> "grid", size |-> <<"int", n>>, centre |-> o, mode |-> "", factor |-> f]
Next == UNCHANGED c
Emit == PrintT(<<"CASE", ToJson(c)>>)
===========================================================================
