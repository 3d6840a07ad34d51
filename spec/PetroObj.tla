------------------------------ MODULE PetroObj ------------------------------
(* Petrosian objects as a state machine: the state of an object is its      *)
(* settings (its data never change); copies and corrections make new        *)
(* objects; reading and plotting change nothing.                            *)
EXTENDS Naturals, Sequences

Fields == {"eta", "eps", "epsf", "tff", "kind", "num"}

\* the heap of objects after operation e
After(heap, e) ==
  CASE e.op = "set" -> [heap EXCEPT ![e.h] = [@ EXCEPT ![e.field] = e.val]]
    [] e.op \in {"copy", "deepcopy", "pickle"} -> Append(heap, heap[e.h])
    [] e.op = "correct" -> Append(heap, [heap[e.h] EXCEPT !.eps = e.val])
    [] OTHER -> heap          \* read, plot, plot_cog, imshow, mutate
=============================================================================
