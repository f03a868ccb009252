------------------------------ MODULE MReadLoop ------------------------------
(* The loop with one buffer, a channel of capacity 1 to the consumer, one back,
   and one for errors, against ReadLoop. The consumer may finish at any time;
   a deadline in the past makes a pending read of the connection fail. *)
EXTENDS ReadLoop, TLC
CONSTANTS MaxBytes, BufLen
VARIABLES st, pc, buf, n, err, chBuf, chReady, done, past, got
vars == <<st, pc, buf, n, err, chBuf, chReady, done, past, got>>
(* got: what the consumer just received, to be judged: <<>>, <<"data", b>>, <<"err">> *)
Init == /\ st = LoopInit /\ pc = "deadline" /\ buf = [i \in 1..BufLen |-> 0] /\ n = 0 /\ err = FALSE
        /\ chBuf = 0 /\ chReady = 0 /\ done = "no" /\ past = FALSE /\ got = "fine"
Arrive == /\ ~st.over /\ Len(st.stream) < MaxBytes
          /\ \E end \in BOOLEAN : \E m \in 0..1 : m + (IF end THEN 1 ELSE 0) > 0
               /\ st' = Push(st, [i \in 1..m |-> Len(st.stream) + i], end)
          /\ UNCHANGED <<pc, buf, n, err, chBuf, chReady, done, past, got>>
RECURSIVE Fill(_, _, _, _)
Fill(b, s, from, k) == [i \in 1..BufLen |-> IF i <= k THEN s[from + i] ELSE b[i]]
Deadline == /\ pc = "deadline" /\ past' = FALSE /\ pc' = "check" /\ UNCHANGED <<st, buf, n, err, chBuf, chReady, done, got>>
Check == /\ pc = "check" /\ pc' = (IF done # "no" THEN "end" ELSE "read") /\ UNCHANGED <<st, buf, n, err, chBuf, chReady, done, past, got>>
Read == /\ pc = "read"
        /\ LET avail == Len(st.stream) - st.taken
           IN \/ /\ avail > 0 /\ \E k \in 1..(IF avail < BufLen THEN avail ELSE BufLen) :
                   /\ buf' = Fill(buf, st.stream, st.taken, k) /\ n' = k
                   /\ err' \in (IF st.over /\ k = avail THEN {TRUE, FALSE} ELSE {FALSE})
                 /\ pc' = "hand" /\ past' = past
              \/ avail = 0 /\ st.over /\ n' = 0 /\ err' = TRUE /\ buf' = buf /\ pc' = "report" /\ past' = past
              \/ past /\ n' = 0 /\ err' = TRUE /\ buf' = buf /\ pc' = "report" /\ past' = past
        /\ UNCHANGED <<st, chBuf, chReady, done, got>>
Hand == pc = "hand" /\ chBuf = 0 /\ chBuf' = n /\ pc' = "wait" /\ UNCHANGED <<st, buf, n, err, chReady, done, past, got>>
Wait == /\ pc = "wait"
        /\ \/ chReady = 1 /\ chReady' = 0 /\ pc' = (IF err THEN "report" ELSE "deadline")
           \/ done # "no" /\ chReady' = chReady /\ pc' = (IF err THEN "report" ELSE "end")
        /\ UNCHANGED <<st, buf, n, err, chBuf, done, past, got>>
(* reporting needs the consumer, or that it is done *)
GiveUp == pc = "report" /\ done # "no" /\ pc' = "end" /\ UNCHANGED <<st, buf, n, err, chBuf, chReady, done, past, got>>
Report == /\ pc = "report" /\ ~st.fin /\ st.held = <<>> /\ chBuf = 0 /\ pc' = "end"
          /\ got' = (IF EndOK(st) THEN got ELSE "wrong") /\ st' = Tell(st)
          /\ UNCHANGED <<buf, n, err, chBuf, chReady, done, past>>
TakeData == /\ chBuf > 0 /\ st.held = <<>> /\ ~st.fin
            /\ LET b == SubSeq(buf, 1, chBuf)
               IN got' = (IF DataOK(st, b) THEN got ELSE "wrong") /\ st' = Take(st, b)
            /\ chBuf' = 0 /\ UNCHANGED <<pc, buf, n, err, chReady, done, past>>
SayReady == /\ st.held # <<>> /\ ~st.fin /\ chReady = 0 /\ chReady' = 1 /\ st' = Ready(st)
            /\ UNCHANGED <<pc, buf, n, err, chBuf, done, past, got>>
(* finishing closes the channel, then moves the deadline *)
Fin == ~st.fin /\ st' = Finish(st) /\ done' = "closed" /\ UNCHANGED <<pc, buf, n, err, chBuf, chReady, past, got>>
FinPast == done = "closed" /\ done' = "moved" /\ past' = TRUE /\ UNCHANGED <<st, pc, buf, n, err, chBuf, chReady, got>>
Loop == Deadline \/ Check \/ Read \/ Hand \/ Wait \/ GiveUp \/ Report
Next == Arrive \/ Loop \/ TakeData \/ SayReady \/ Fin \/ FinPast
Spec == Init /\ [][Next]_vars /\ WF_vars(Loop) /\ WF_vars(TakeData) /\ WF_vars(SayReady) /\ WF_vars(FinPast)
Right == /\ got = "fine"
         /\ st.held # <<>> => SubSeq(buf, 1, Len(st.held)) = st.held
Stops == [](st.fin => <>(pc = "end"))
(* what arrived, or the end, is handed over, unless the consumer finishes *)
HandsOver == [](Due(st) => <>(~Due(st)))
=============================================================================
