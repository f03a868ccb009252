------------------------------- MODULE MReadSeq -------------------------------
(* Every short sequence of what a connection and a consumer do: scripts for the
   real loop. `due` tells whether something is to be handed over. *)
EXTENDS ReadLoop, Json, IOUtils, TLC
CONSTANTS MaxOps
VARIABLES st, evs
Init == st = LoopInit /\ evs = <<>>
Ev(e, b) == [e |-> e, b |-> b, due |-> Due(st)]
Bytes(m) == [i \in 1..m |-> (Len(st.stream) + i) % 256]
(* the loop is free to hand over less than what arrived; here it is all in one, which
   is how what follows is chosen, not how it is judged *)
All == SubSeq(st.stream, st.taken + 1, Len(st.stream))
DoPush == \/ ~st.over /\ \E m \in {1, 3, 9}, end \in {"data", "dataerr", "dataeof"} :
               st' = Push(st, Bytes(m), end # "data") /\ evs' = Append(evs, Ev(end, Bytes(m)))
          \/ ~st.over /\ \E end \in {"err", "eof"} : st' = Push(st, <<>>, TRUE) /\ evs' = Append(evs, Ev(end, <<>>))
DoTake == Due(st) /\ st' = (IF All # <<>> THEN Take(st, All) ELSE Tell(st)) /\ evs' = Append(evs, Ev("take", <<>>))
DoIdle == ~Due(st) /\ (evs # <<>> /\ evs[Len(evs)].e # "idle") /\ st' = st /\ evs' = Append(evs, Ev("idle", <<>>))
DoReady == st.held # <<>> /\ ~st.fin /\ st' = Ready(st) /\ evs' = Append(evs, Ev("ready", <<>>))
DoFinish == ~st.fin /\ st' = Finish(st) /\ evs' = Append(evs, Ev("finish", <<>>))
Next == Len(evs) < MaxOps /\ ~(st.fin \/ st.told) /\ (DoPush \/ DoTake \/ DoIdle \/ DoReady \/ DoFinish)
Spec == Init /\ [][Next]_<<st, evs>>
Emit == IOEnv.OUT = "" \/ ~(Len(evs) = MaxOps \/ st.fin \/ st.told) \/ PrintT("GEN " \o ToJson([op |-> "seq", buf |-> 4, evs |-> evs]))
=============================================================================
