------------------------------ MODULE JOptions ------------------------------
(* Recorded readings of command lines, judged by Options. *)
EXTENDS Options, Judge
Judged == LET e == Trace[l] IN e.x = "ok" /\ OptionsOK(e.g, e.out)
=============================================================================
