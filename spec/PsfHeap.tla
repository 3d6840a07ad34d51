------------------------------ MODULE PsfHeap ------------------------------
(* PSF-convolved models and their copies: parameters, configuration, cache  *)
(* switch.  Evaluation, clearing the cache and the cache switch change no   *)
(* observable state.                                                        *)
EXTENDS PsfConfig
P0 == [par |-> 0, cfg |-> [os |-> None_, po |-> None_, psf |-> None_], cache |-> TRUE]
After(heap, e) ==
  CASE e.op = "par" -> [heap EXCEPT ![e.h].par = e.v]
    [] e.op \in {"oversample", "psf_oversample", "psf"} -> [heap EXCEPT ![e.h].cfg = Assign(@, e)]
    [] e.op = "cache" -> [heap EXCEPT ![e.h].cache = (e.v = 1)]
    [] e.op \in {"copy", "deepcopy"} -> Append(heap, heap[e.h])
    [] OTHER -> heap                       \* eval, clear, badcache
=============================================================================
