------------------------------ MODULE RateLimit ------------------------------
(* A rate limiter for the two directions "r" and "w". For each it knows its rate
   (bytes admitted per refill, -1 for no limit), what was admitted since the
   last refill, and the sizes of the transfers that wait. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Dirs == {"r", "w"}
RateInit == [d \in Dirs |-> [rate |-> -1, used |-> 0, wait |-> <<>>, done |-> 0]]
SetRate(st, d, v) == [st EXCEPT ![d].rate = IF v < -1 THEN -1 ELSE v]
Ask(st, d, m) == [st EXCEPT ![d].wait = Append(@, m)]
RECURSIVE AskMany(_, _, _, _)
AskMany(st, d, m, n) == IF n = 0 THEN st ELSE AskMany(Ask(st, d, m), d, m, n - 1)
MayPass(x) == x.rate = -1 \/ x.used < x.rate
(* whoever waits may be next *)
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Admit(st, d, i) == [st EXCEPT ![d].used = @ + st[d].wait[i], ![d].done = @ + 1, ![d].wait = RemoveAt(@, i)]
Refill(st) == [d \in Dirs |-> [st[d] EXCEPT !.used = 0]]

(* Everything that can pass has: a state in which nothing is left to admit. Who
   waits in one direction has the same size here, so that there is one. *)
RECURSIVE SettleDir(_, _)
SettleDir(st, d) == IF st[d].wait # <<>> /\ MayPass(st[d]) THEN SettleDir(Admit(st, d, 1), d) ELSE st
Settle(st) == SettleDir(SettleDir(st, "r"), "w")

(* At most this much passes, under a rate L and with messages of m bytes, if there
   were no more than k refills. *)
Bound(L, m, k) == (k + 1) * (L + m - 1)
=============================================================================
