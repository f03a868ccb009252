------------------------------ MODULE JReport ------------------------------
(* Recorded runs of the info command, judged by Report. *)
EXTENDS Report, Judge
Judged == LET e == Trace[l] IN e.x = "ok" /\ ReportOK(e.in, e.out)
=============================================================================
