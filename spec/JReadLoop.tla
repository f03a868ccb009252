------------------------------- MODULE JReadLoop -------------------------------
(* Recorded behaviour of the read loop (C25). *)
EXTENDS ReadLoop, Judge

Got(st, e) ==
  CASE e.got = "none" -> [ok |-> e.e = "idle" \/ ~Due(st), st |-> st]
    [] e.got = "data" -> [ok |-> DataOK(st, e.data), st |-> Take(st, e.data)]
    [] e.got = "err" -> [ok |-> EndOK(st) \/ st.fin, st |-> Tell(st)]
    [] OTHER -> [ok |-> FALSE, st |-> st]
StepOf(st, e) ==
  CASE e.e = "data" -> [ok |-> TRUE, st |-> Push(st, e.b, FALSE)]
    [] e.e \in {"dataerr", "dataeof", "err", "eof"} -> [ok |-> TRUE, st |-> Push(st, e.b, TRUE)]
    [] e.e \in {"take", "idle"} -> Got(st, e)
    [] e.e = "ready" -> [ok |-> e.returned, st |-> Ready(st)]
    [] e.e \in {"finish", "burst"} -> [ok |-> e.returned /\ e.ended, st |-> Finish(st)]
    [] e.e = "nothing" -> [ok |-> TRUE, st |-> st]
(* What is wrong however late: the wrong bytes, an end too early, a buffer that changed. *)
RECURSIVE Right(_, _, _)
Right(evs, i, st) ==
  IF i > Len(evs) THEN TRUE
  ELSE LET e == evs[i]
           r == StepOf(st, e)
       IN /\ e.held = r.st.held
          /\ (e.e \in {"take", "idle"} /\ e.got # "none") => r.ok
          /\ Right(evs, i + 1, r.st)
Certain == LET r == Trace[l] IN (r.x = "ok" /\ r.op = "seq") => Right(r.evs, 1, LoopInit)

(* All of n bytes, in the order they came, and then the end. *)
ManyOK(r) == r.out.got = r.n /\ r.out.right = r.n /\ r.out.err /\ r.out.over /\ r.out.ended
RECURSIVE Walk(_, _, _)
Walk(evs, i, st) ==
  IF i > Len(evs) THEN TRUE
  ELSE LET r == StepOf(st, evs[i])
       IN r.ok /\ evs[i].held = r.st.held /\ Walk(evs, i + 1, r.st)
Judged == LET r == Trace[l]
          IN r.x = "ok" /\ (IF r.op = "timeout" THEN r.told /\ r.returned /\ r.ended ELSE IF r.op = "many" THEN ManyOK(r) ELSE Walk(r.evs, 1, LoopInit))
=============================================================================
