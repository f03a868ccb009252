------------------------------ MODULE JTracker ------------------------------
(* Recorded announces, judged by Tracker. *)
EXTENDS Tracker, Judge
Accept(e) ==
  /\ e.x = "ok"
  /\ CASE e.op = "announce" ->
            /\ e.out.ok /\ Len(e.got) = 1
            /\ e.got[1].method = <<71,69,84>>
            /\ TargetOK(e.own, e.got[1].target, [ih |-> e.ih, pid |-> e.pid, port |-> e.port,
                 up |-> StatsRun(e.st, e.ops).up, dn |-> StatsRun(e.st, e.ops).dn, left |-> StatsRun(e.st, e.ops).left])
            /\ e.trail = StatsTrail(e.st, e.ops)
       [] e.op = "unusable" -> ~e.out.ok
       [] e.op = "answer" -> AnswerOK(e.body, e.cut, e.out)
Judged == Accept(Trace[l])
=============================================================================
