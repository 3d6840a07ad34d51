------------------------------ MODULE Segments ------------------------------
(* 8-connected groups of detected pixels.  Pixels are numbered row by row:  *)
(* pixel k of an image of width nx is at x = (k-1) % nx, y = (k-1) \div nx.  *)
EXTENDS Rat, FiniteSets, SequencesExt
PX(k, nx) == (k - 1) - nx * ((k - 1) \div nx)
PY(k, nx) == (k - 1) \div nx
Flat(img) == FlattenSeq(img)
Touching(k, m, nx) == LET dx == PX(k, nx) - PX(m, nx) dy == PY(k, nx) - PY(m, nx) IN dx \in -1..1 /\ dy \in -1..1
\* neighbours of k among the pixels 1..n
Around(k, nx, n) == {m \in {k-nx-1, k-nx, k-nx+1, k-1, k+1, k+nx-1, k+nx, k+nx+1} : m \in 1..n /\ Touching(k, m, nx)}
\* least pixel of the group of each detected pixel, 0 elsewhere
RECURSIVE Settle(_, _)
Settle(f, nx) ==
  LET n == Len(f)
      Low(g, k) == IF g[k] = 0 THEN 0
                   ELSE LET S == {g[m] : m \in {q \in Around(k, nx, n) : g[q] # 0}} \cup {g[k]} IN CHOOSE v \in S : \A w \in S : v <= w
      Sweep(g, k) == [g EXCEPT ![k] = Low(g, k)]
      fw == FoldLeft(Sweep, f, [k \in 1..n |-> k])
      bw == TLCEval(FoldLeft(Sweep, fw, [k \in 1..n |-> n + 1 - k]))
  IN IF bw = f THEN f ELSE Settle(bw, nx)
Groups(above, nx) == Settle(TLCEval([k \in 1..Len(above) |-> IF above[k] THEN k ELSE 0]), nx)
\* the same, from the definition of connectedness: the pixels reachable from k
RECURSIVE Reach(_, _, _)
Reach(S, above, nx) ==
  LET T == S \cup {m \in 1..Len(above) : above[m] /\ \E k \in S : Touching(k, m, nx)} IN IF T = S THEN S ELSE Reach(T, above, nx)
\* groups of at least npix pixels: least pixel of the group, 0 elsewhere
Kept(above, nx, npix) ==
  LET g == TLCEval(Groups(above, nx))
      size == TLCEval([k \in 1..Len(g) |-> Cardinality({m \in 1..Len(g) : g[m] = k})])
  IN [k \in 1..Len(g) |-> IF g[k] # 0 /\ size[g[k]] >= npix THEN g[k] ELSE 0]
\* two labellings name the same parts
SameParts(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A k \in 1..Len(a) : (a[k] = 0) <=> (b[k] = 0)
  /\ LET pairs == {<<a[k], b[k]>> : k \in 1..Len(a)} IN
     Cardinality(pairs) = Cardinality({p[1] : p \in pairs}) /\ Cardinality(pairs) = Cardinality({p[2] : p \in pairs})
\* b splits parts of a only
Splits(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A k \in 1..Len(a) : (a[k] = 0) <=> (b[k] = 0)
  /\ LET pairs == {<<a[k], b[k]>> : k \in 1..Len(a)} IN Cardinality(pairs) = Cardinality({p[2] : p \in pairs})
=============================================================================
