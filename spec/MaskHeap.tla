------------------------------ MODULE MaskHeap ------------------------------
(* Shared objects of the masking functions and what a call returns.  The    *)
(* functions are pure: no call changes the heap.                            *)
EXTENDS Rat
Has(s, x) == \E i \in DOMAIN s : s[i] = x
\* mask of pixel label p for the requested labels
Selected(p, labels, bg) == Has(labels, p) \/ (~bg /\ p = 0)
MaskOf(seg, labels, bg) == [j \in DOMAIN seg |-> [i \in DOMAIN seg[j] |-> IF Selected(seg[j][i], labels, bg) THEN 1 ELSE 0]]
ImageOf(img, seg, labels, bg, fill) ==
  [j \in DOMAIN seg |-> [i \in DOMAIN seg[j] |-> IF Selected(seg[j][i], labels, bg) THEN img[j][i] ELSE fill]]
=============================================================================
