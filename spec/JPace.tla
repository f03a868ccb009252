-------------------------------- MODULE JPace --------------------------------
(* Transfers through the limiter in virtual time, over minutes (C23: Which = "limit"; C24: "live").
   ps: what passed, in order; asks: the transfers; between changes of the rate, the bound of
   RateLimit holds over every interval, wherever the refills are. *)
EXTENDS RateLimit, Judge
CONSTANT Which

Of(s, d) == SelectSeq(s, LAMBDA x : x.d = d)
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Sets(r, d) == SelectSeq(r.evs, LAMBDA e : e.a = "set" /\ e.d = d)
(* The rate that holds throughout [a, b], or -2 if it changes. *)
RateIn(ss, a, b) ==
  IF \E i \in DOMAIN ss : ss[i].t >= a /\ ss[i].t <= b THEN -2
  ELSE LET before == {i \in DOMAIN ss : ss[i].t < a}
       IN IF before = {} THEN -1
          ELSE LET v == ss[MaxOf(before)].v IN IF v < -1 THEN -1 ELSE v
RECURSIVE Sums(_, _)
Sums(ps, acc) == IF ps = <<>> THEN acc ELSE Sums(Tail(ps), Append(acc, acc[Len(acc)] + Head(ps).n))

LimitOK(r, d) ==
  LET ps == Of(r.passes, d)
      ss == Sets(r, d)
      m == MaxOf({r.asks[i].m : i \in DOMAIN r.asks})
      s == Sums(ps, <<0>>)
      before == [i \in DOMAIN ps |-> Cardinality({x \in DOMAIN ss : ss[x].t < ps[i].t})]     \* changes
      upto == [i \in DOMAIN ps |-> Cardinality({x \in DOMAIN ss : ss[x].t <= ps[i].t})]
      rate == [i \in DOMAIN ps |-> IF upto[i] = 0 THEN -1 ELSE ss[upto[i]].v]
  IN \A i \in DOMAIN ps :
       (rate[i] >= 0 /\ before[i] = upto[i]) =>
         /\ rate[i] > 0         \* nothing passes under 0
         /\ \A j \in i..Len(ps) :
              upto[j] = before[i] => s[j + 1] - s[i] <= Bound(rate[i], m, (ps[j].t - ps[i].t) \div 1000 + 1)

(* With no limit at all nothing waits; under the last, positive one, everything is through
   after twice the time that it takes. *)
RECURSIVE Bytes(_)
Bytes(as) == IF as = <<>> THEN 0 ELSE Head(as).m + Bytes(Tail(as))
LiveOK(r, d) ==
  LET as == Of(r.asks, d)
      ss == Sets(r, d)
      since == MaxOf({r.evs[i].t : i \in DOMAIN r.evs})
      L == IF ss = <<>> THEN -1 ELSE ss[Len(ss)].v
      due == since + (IF L < 0 THEN 1000 ELSE (2 * (Bytes(as) \div L) + 5) * 1000)
  IN /\ (L # 0 /\ due <= r.until) => \A i \in DOMAIN as : as[i].to >= 0 /\ as[i].to <= due /\ as[i].ok
     /\ \A i \in DOMAIN as : (as[i].from >= 0 /\ RateIn(ss, as[i].from, as[i].from + 100) = -1) => as[i].to >= 0 /\ as[i].to <= as[i].from + 100

Judged == LET r == Trace[l]
          IN /\ r.x = "ok"
             /\ \A d \in Dirs : IF Which = "limit" THEN LimitOK(r, d) ELSE LiveOK(r, d)
             /\ Which = "live" => r.stopped
=============================================================================
