----------------------------- MODULE C18Model -----------------------------
(* Exact relations between index, concentrations and epsilon of the Sersic  *)
(* law, as inputs for the closed-form approximations.                       *)
EXTENDS SersicLaws, Json
VARIABLE k
Nidx(i) == RQ(i, 8)                        \* n = k/8
Init == k \in 4..80
Next == UNCHANGED k
Record(n) ==
  LET b == BN(n)
      c == Conc(FracRadius(b, n, RQ(1, 5)), FracRadius(b, n, RQ(4, 5)))
      rp == PetroRadius(b, n, RQ(1, 5)) r5 == PetroRadius(b, n, RQ(1, 2))
      t2 == RGammaP(RMul(2, n), XOf(b, n, RMul(2, rp)))      \* light inside twice the Petrosian radius
      u == Conc(FracRadius(b, n, RDiv(t2, 5)), FracRadius(b, n, RMul(t2, RQ(4, 5))))
  IN [n |-> RStr(n), c |-> RStr(c), u |-> RStr(u), eps |-> RStr(RDiv(FracRadius(b, n, RQ(99, 100)), rp)), p |-> RStr(Conc(r5, rp))]
Emit == PrintT(<<"CASE", ToJson(Record(Nidx(k)))>>)
===========================================================================
