---------------------------- MODULE PetroModel ----------------------------
(* All small Petrosian profiles: theorems about the definition of the       *)
(* Petrosian radius, and the inputs on which the code is then run.          *)
EXTENDS Petro, Json
CONSTANTS Den, Len0, Kinds
VARIABLES prof, eta, kind

R == [i \in 1..Len0 |-> i]                       \* measured radii 1..n
P(p) == [i \in 1..Len0 |-> RQ(p[i], Den)]
GX(k) == RGrid(k, 2 * Len0 + 1, R)
GY(k, p) == GridY(k, Anchor(R, 0), Anchor(P(p), 1), GX(k))
Idx(k, p, e) == ReachExact(GY(k, p), RQ(2 * e - 1, 2 * Den), FALSE)
Rad(k, p, e) == LET i == Idx(k, p, e) IN IF i = 0 THEN RQ(0, 0) ELSE N(GX(k)[i])

Init == /\ prof \in [1..Len0 -> 0..Den] /\ prof[1] = Den
        /\ eta \in 1..Den /\ kind \in Kinds
Next == UNCHANGED <<prof, eta, kind>>

\* a larger eta never gives a larger radius
Monotone == \A e \in eta..Den : RIsNaN(Rad(kind, prof, eta)) \/ RLe(Rad(kind, prof, e), Rad(kind, prof, eta))
\* undefined iff the sampled profile never gets there
Defined == LET gy == GY(kind, prof) IN
           RIsNaN(Rad(kind, prof, eta)) = (\A i \in 1..Len(gy) : RLt(RQ(2 * eta - 1, 2 * Den), gy[i]))
\* the profile after the first crossing does not matter (local kinds)
TailFree == LET gy == GY(kind, prof)
            s == SelectInSeq(gy, LAMBDA z : RLe(z, RQ(2 * eta - 1, 2 * Den)))
        IN kind # "cubic" /\ s # 0 =>
             \A c \in {0, Den} :
               LET q == [i \in 1..Len0 |-> IF i > 1 /\ RLe(GX(kind)[s], Anchor(R, 0)[i-1]) THEN c ELSE prof[i]]
               IN REq(Rad(kind, q, eta), Rad(kind, prof, eta))
\* scaling the radius unit scales the radius
Scale == LET R2 == [i \in 1..Len0 |-> 3 * i]
             gx == RGrid(kind, 2 * Len0 + 1, R2)
             gy == GridY(kind, Anchor(R2, 0), Anchor(P(prof), 1), gx)
             i == ReachExact(gy, RQ(2 * eta - 1, 2 * Den), FALSE)
         IN kind \in {"None", "linear"} => i = Idx(kind, prof, eta)
\* the tolerant relation used for judging contains the exact answer
Sound == Idx(kind, prof, eta) \in RpIdx(kind, 2 * Len0 + 1, R, P(prof), RQ(2 * eta - 1, 2 * Den))
Emit == PrintT(<<"CASE", ToJson([p |-> prof, eta |-> eta, kind |-> kind])>>)
Inv == Monotone /\ Defined /\ TailFree /\ Scale /\ Sound /\ Emit
===========================================================================
