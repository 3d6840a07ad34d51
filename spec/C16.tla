-------------------------------- MODULE C16 --------------------------------
(* Recorded heaps of real models follow the heap machine, and every image   *)
(* is the light of the parameters the machine says the object has.           *)
EXTENDS Trace, WrapHeap
VARIABLES tid, l, heap
Table == NN(JsonDeserialize(IOEnv.VF_TABLE))
Full(e) == IF "objs" \in DOMAIN e THEN [e EXCEPT !.objs = [k \in 1..Len(@) |-> Table[@[k]]]] ELSE e

\* a Gaussian (amplitude, centre, widths, angle), plus a constant for kind "c"
Light(o, x, y) ==
  LET p == o.vals dx == RSub(x, p[2]) dy == RSub(y, p[3])
      c == RCos(p[6]) s == RSin(p[6])
      u == RAdd(RMul(c, dx), RMul(s, dy)) w == RSub(RMul(c, dy), RMul(s, dx))
      q == RAdd(RDiv(RMul(u, u), RMul(2, RMul(p[4], p[4]))), RDiv(RMul(w, w), RMul(2, RMul(p[5], p[5]))))
      g == RMul(p[1], RExp(RNeg(q)))
  IN IF o.kind = "g" THEN g ELSE RAdd(g, p[7])

SameState(r, o) ==    \* the object reads back as the machine says, through both of its interfaces
  /\ r.names = o.names
  /\ Agree(r.vals, o.vals, E(9)) /\ Agree(r.pars, o.vals, E(9))
  /\ r.fix = o.fix /\ r.fix2 = o.fix
  /\ Agree(r.bnd, o.bnd, 0) /\ Agree(r.bnd2, o.bnd, 0)
SameImage(r, o, xy) == \A k \in 1..Len(xy) : RClose(r.img[k], Light(o, xy[k][1], xy[k][2]), E(8), E(12))

\* (an image already judged for the same values is judged)
SeenImage(r, o, before, hp) ==
  LET n == IF o.kind = "g" THEN 6 ELSE 7 IN
  \E k \in 1..Len(before) : /\ before[k].img = r.img /\ hp[k].kind = o.kind
                             /\ SubSeq(hp[k].vals, 1, n) = SubSeq(o.vals, 1, n)

\* a fit returns a new object with the same constraints; free parameters may move, inside their bounds
InBounds(v, b) == (None(b[1]) \/ RLe(b[1], v)) /\ (None(b[2]) \/ RLe(v, b[2]))
\* (a fit that would start outside its bounds may be refused)
CanStart(w) == \A i \in 1..Len(w.vals) : InBounds(w.vals[i], w.bnd[i])
FitOf(w, r) == [w EXCEPT !.vals = r.vals]
FitOk(w, r) == /\ Len(r.vals) = Len(w.vals)
               /\ \A i \in 1..Len(w.vals) : IF w.fix[i] = 1 THEN RClose(r.vals[i], w.vals[i], E(9), 0) ELSE InBounds(r.vals[i], w.bnd[i])
Expect(hp, e) ==
  IF e.op = "fit" THEN IF e.ok = 1 THEN Append(hp, FitOf(hp[e.h], e.objs[Len(e.objs)])) ELSE hp
  ELSE AfterW(hp, e)
Changed(e, n) == IF e.op \in {"wrap", "wrapfix", "wrapbnd", "sub", "copy", "fit"} THEN n ELSE e.h
Failed(e, before) ==
  LET x == Expect(heap, e) n == Len(x) c == Changed(e, n) IN
  Cl("accepted", e.ok = 1 \/ (e.op = "fit" /\ ~CanStart(heap[e.h])))
  \cup (IF e.ok # 1 THEN {} ELSE
     Cl("one-object-per-model", Len(e.objs) = n)
     \cup Cl("operation-result", SameState(e.objs[c], x[c]))
     \cup (IF e.op = "fit" THEN Cl("fit-keeps-fixed-and-bounds", FitOk(heap[e.h], e.objs[n])) ELSE {})
     \cup Cl("other-objects-unchanged", \A k \in (1..n) \ {c} : SameState(e.objs[k], x[k]))
     \cup Cl("images-follow-own-parameters", \A k \in 1..n : SeenImage(e.objs[k], x[k], before, heap) \/ SameImage(e.objs[k], x[k], e.xy)))
Start(e) == [k \in 1..Len(e.objs) |->
   [t |-> "base", kind |-> e.kinds[k], names |-> e.objs[k].names, vals |-> e.objs[k].vals, fix |-> e.objs[k].fix, bnd |-> e.objs[k].bnd]]
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ heap = Start(Full(Traces[tid][1]))
StartImages(e) == \A k \in 1..Len(heap) : SameImage(e.objs[k], heap[k], T[2].xy)
Next == /\ l <= Len(T)
        /\ IF l = 1 THEN /\ heap' = heap
                         /\ (tid = 1 \/ T[1].objs # Traces[1][1].objs) =>
                              Report(tid, l, RTry(Cl("images-follow-own-parameters", StartImages(Full(T[1]))), {"unexpected-result"}))
           ELSE LET e == Full(T[l]) IN
                /\ Report(tid, l, RTry(Failed(e, Full(T[l - 1]).objs), {"unexpected-result"}))
                /\ heap' = RTry(Expect(heap, e), heap)
        /\ l' = l + 1 /\ UNCHANGED tid
TypeOK == tid \in 1..Len(Traces) /\ l \in 1..(Len(Traces[tid]) + 1)
============================================================================
