------------------------------- MODULE JPrep -------------------------------
(* Recorded preparations, whole and interrupted (C09). *)
EXTENDS Prepare, Judge
DiskOf(q, f(_)) == {<<q[i].name, f(q[i])>> : i \in 1..Len(q)}
RunsOf(d) == d.r
Seen(q) == DiskOf(q, RunsOf)
Before(s, i) == IF i = 1 THEN Seen(s.init) ELSE Seen(s.evs[i - 1].disk)
StepOK(s, i) ==
  LET e == s.evs[i]
  IN CASE e.e = "prep" -> e.ok /\ Seen(e.disk) = PreparedDisk(s.files, Before(s, i))
       [] e.e = "cut" -> IF e.ok THEN Seen(e.disk) = PreparedDisk(s.files, Before(s, i))
                         ELSE Interrupted(s.files, Before(s, i), Seen(e.disk))
(* However often it was interrupted, what existed first is kept. *)
Kept(s) == Seen(s.evs[Len(s.evs)].disk) = PreparedDisk(s.files, Seen(s.init))
Judged == LET s == Trace[l] IN s.x = "ok" /\ (\A i \in 1..Len(s.evs) : StepOK(s, i)) /\ Kept(s)
=============================================================================
