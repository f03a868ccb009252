------------------------------- MODULE MRateSeq -------------------------------
(* Every short sequence of transfers and changes of the rates, without refills:
   scripts for the real limiter. *)
EXTENDS RateLimit, Json, IOUtils
CONSTANTS Rates, MaxOps
SomeRates == {-1, -5, 0, 3, 8}
VARIABLES st, evs
M == [r |-> 3, w |-> 4]
Init == st = RateInit /\ evs = <<>>
Ev(e, d, v, s) == [e |-> e, d |-> d, v |-> v, n |-> 1, want |-> s["r"].done + s["w"].done]
DoAsk == \E d \in Dirs : LET s == Settle(Ask(st, d, M[d])) IN st' = s /\ evs' = Append(evs, Ev("ask", d, M[d], s))
DoSet == \E d \in Dirs, v \in Rates : LET s == Settle(SetRate(st, d, v)) IN st' = s /\ evs' = Append(evs, Ev("set", d, v, s))
Next == Len(evs) < MaxOps /\ (DoAsk \/ DoSet)
Spec == Init /\ [][Next]_<<st, evs>>
(* the settled state does not depend on who goes first, and nothing passes beyond the limit *)
Settled == \A d \in Dirs : st[d].wait # <<>> => ~MayPass(st[d])
Emit == IOEnv.OUT = "" \/ Len(evs) < MaxOps \/ PrintT("GEN " \o ToJson([op |-> "seq", evs |-> evs]))
=============================================================================
