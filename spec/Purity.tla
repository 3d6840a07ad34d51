------------------------------- MODULE Purity -------------------------------
(* Calls of a library without side effects: shared inputs keep their        *)
(* contents, settings keep their values, and the result of a call is a      *)
(* function of the call (showing plots and printouts is not part of it).    *)
EXTENDS Naturals, Sequences
\* contents of the shared inputs after a call
Contents(content, e) == content
Settings(settings, e) == settings
\* the call a result is a function of
Call(e) == e.call
=============================================================================
