-------------------------------- MODULE JRate --------------------------------
(* Recorded transfers through the limiter: C23 (Which = "limit", and
   "free" for what has no limit) and C24 ("live").
   What may have been refilled is only known from the time since the limiter was
   made; events later than that tells are not judged. *)
EXTENDS RateLimit, Judge
CONSTANT Which

StepSt(st, e) == Settle(IF e.e = "set" THEN SetRate(st, e.d, e.v) ELSE AskMany(st, e.d, e.v, e.n))
Seen(e, d) == IF d = "r" THEN e.r ELSE e.w
EventOK(st, e) ==
  IF Which = "limit"
  THEN \A d \in Dirs : Seen(e, d) <= st[d].done
  ELSE IF Which = "free"
  THEN \A d \in Dirs : st[d].rate = -1 => Seen(e, d) = st[d].done
  ELSE \A d \in Dirs : Seen(e, d) >= st[d].done
RECURSIVE Walk(_, _, _)
Walk(evs, i, st) ==
  IF i > Len(evs) \/ evs[i].late THEN TRUE
  ELSE LET s == StepSt(st, evs[i]) IN EventOK(s, evs[i]) /\ Walk(evs, i + 1, s)

RECURSIVE Asked(_, _, _)
Asked(evs, i, D) == IF i > Len(evs) THEN 0
                    ELSE (IF evs[i].e = "ask" /\ evs[i].d \in D THEN evs[i].n ELSE 0) + Asked(evs, i + 1, D)
SeqOK(r) ==
  /\ Walk(r.evs, 1, RateInit)
  /\ Which = "live" =>
       /\ Len(r.fin) = Asked(r.evs, 1, Dirs) /\ r.total = Len(r.fin)
       /\ \A i \in DOMAIN r.fin : r.fin[i].ok /\ r.fin[i].same
       (* each written whole and once *)
       /\ Len(r.chunks) = Asked(r.evs, 1, {"w"})
       /\ {r.chunks[i] : i \in DOMAIN r.chunks} = {r.fin[i].id : i \in {j \in DOMAIN r.fin : r.fin[j].d = "w"}}

LaneOK(x) ==
  IF Which = "free" THEN x.rate < 0 => x.done
  ELSE IF Which = "limit"
  THEN x.rate < 0 \/ \A i \in DOMAIN x.ms : i * x.m <= Bound(x.rate, x.m, x.ms[i] \div 1000 + 1)
  ELSE x.stopped /\ x.done /\ Len(x.ms) = x.n

DataOK(r) ==
  LET o == r.out
  IN IF r.d = "w"
     THEN IF r.fail THEN o.err ELSE ~o.err /\ o.sent = r.data
     ELSE IF Len(r.data) >= r.m
          THEN /\ ~o.err /\ o.got = SubSeq(r.data, 1, r.m) /\ o.left = Len(r.data) - r.m
          ELSE o.err
(* What is wrong however late: what was transferred is not what was given. *)
Certain ==
  LET r == Trace[l]
  IN (r.x = "ok" /\ Which = "live" /\ r.op = "seq") =>
       /\ \A i \in DOMAIN r.fin : r.fin[i].ok /\ r.fin[i].same
       /\ \A i, j \in DOMAIN r.chunks : i # j => r.chunks[i] # r.chunks[j]
       /\ (r.total = Len(r.fin)) => {r.chunks[i] : i \in DOMAIN r.chunks} = {r.fin[i].id : i \in {j \in DOMAIN r.fin : r.fin[j].d = "w"}}
Judged ==
  LET r == Trace[l]
  IN /\ r.x = "ok"
     /\ CASE r.op = "seq" -> SeqOK(r)
          [] r.op = "timed" -> \A i \in DOMAIN r.lanes : LaneOK(r.lanes[i])
          [] r.op = "data" -> Which = "live" => DataOK(r)
=============================================================================
