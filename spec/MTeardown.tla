------------------------------- MODULE MTeardown -------------------------------
(* The end of a session: the main loop waits on an unbuffered channel for the first error that
   one of its three workers reports; then it closes `done`, closes the connection, waits for the
   workers, and gives the pieces back. The receiver has the read loop of MReadLoop as a fourth
   process. A worker may be writing to the connection, waiting to be allowed to (a limiter, that
   may let it wait for as long as it likes but not for ever), waiting for a timer, or handing over
   an error. The peer may stop reading, end the connection, or send something that ends it, at any
   moment; the peer that stays for good is one behaviour, too. *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS GiveUp        \* reporting workers also watch `done`
Workers == {"ping", "recv", "req"}
VARIABLES main, w, rl, done, conn, peer, given
vars == <<main, w, rl, done, conn, peer, given>>
Init == /\ main = "wait" /\ w = [x \in Workers |-> "idle"] /\ rl = "read"
        /\ done = FALSE /\ conn = "open" /\ peer = "reads" /\ given = FALSE
(* The peer *)
Deaf == peer = "reads" /\ peer' = "deaf" /\ UNCHANGED <<main, w, rl, done, conn, given>>
Gone == peer # "gone" /\ peer' = "gone" /\ conn' = (IF conn = "open" THEN "broken" ELSE conn) /\ UNCHANGED <<main, w, rl, done, given>>
(* Workers: from idle they may begin to write (a keep-alive, an answer, a request), after
   having waited for the limiter *)
Begin(x) == /\ w[x] = "idle" /\ ~done
            /\ w' = [w EXCEPT ![x] = IF x = "ping" THEN "write" ELSE "limit"]
            /\ (x = "recv" => rl = "hand")      \* an answer is to something received
            /\ UNCHANGED <<main, rl, done, conn, peer, given>>
Allowed(x) == w[x] = "limit" /\ w' = [w EXCEPT ![x] = "write"] /\ UNCHANGED <<main, rl, done, conn, peer, given>>
Written(x) == /\ w[x] = "write"
              /\ \/ conn = "open" /\ peer = "reads"
                    /\ w' = [w EXCEPT ![x] = "idle"] /\ rl' = (IF x = "recv" THEN "read" ELSE rl)
                 \/ conn # "open" /\ w' = [w EXCEPT ![x] = "report"] /\ rl' = rl
                 \/ conn = "open" /\ peer = "deaf"       \* a write deadline
                    /\ w' = [w EXCEPT ![x] = "report"] /\ rl' = rl
              /\ UNCHANGED <<main, done, conn, peer, given>>
Refuse == /\ w["recv"] = "idle" /\ rl = "hand" /\ w' = [w EXCEPT !["recv"] = "report"]   \* an offence
          /\ UNCHANGED <<main, rl, done, conn, peer, given>>
Stop(x) == /\ done /\ w[x] \in (IF GiveUp THEN {"idle", "report"} ELSE {"idle"})
           /\ w' = [w EXCEPT ![x] = "end"] /\ UNCHANGED <<main, rl, done, conn, peer, given>>
Told(x) == /\ main = "wait" /\ w[x] = "report" /\ w' = [w EXCEPT ![x] = "end"] /\ main' = "close"
           /\ UNCHANGED <<rl, done, conn, peer, given>>
(* The read loop: reads, hands over, reports; it ends when its owner has *)
Read == /\ rl = "read"
        /\ \/ conn = "open" /\ peer # "gone" /\ rl' = "hand"
           \/ conn # "open" /\ rl' = "fail"
        /\ UNCHANGED <<main, w, done, conn, peer, given>>
Silent == rl = "read" /\ conn = "open" /\ rl' = "fail" /\ UNCHANGED <<main, w, done, conn, peer, given>>   \* the deadline
Taken == rl = "hand" /\ w["recv"] = "idle" /\ rl' = "read" /\ UNCHANGED <<main, w, done, conn, peer, given>>
Failed == rl = "fail" /\ w["recv"] = "idle" /\ w' = [w EXCEPT !["recv"] = "report"] /\ rl' = "end" /\ UNCHANGED <<main, done, conn, peer, given>>
Finished == rl \in {"read", "hand", "fail"} /\ w["recv"] = "end" /\ rl' = "end" /\ UNCHANGED <<main, w, done, conn, peer, given>>
(* The main loop *)
Close == main = "close" /\ done' = TRUE /\ conn' = "closed" /\ main' = "join" /\ UNCHANGED <<w, rl, peer, given>>
Join == main = "join" /\ (\A x \in Workers : w[x] = "end") /\ given' = TRUE /\ main' = "end" /\ UNCHANGED <<w, rl, done, conn, peer>>
Work == \/ \E x \in Workers : Allowed(x) \/ Written(x) \/ Stop(x) \/ Told(x)
        \/ Refuse \/ Read \/ Taken \/ Failed \/ Finished \/ Close \/ Join
Next == Work \/ Deaf \/ Gone \/ Silent \/ \E x \in Workers : Begin(x)
Fair == /\ \A x \in Workers : WF_vars(Allowed(x)) /\ WF_vars(Written(x)) /\ WF_vars(Stop(x)) /\ SF_vars(Told(x))
        /\ SF_vars(Read) /\ SF_vars(Failed) /\ WF_vars(Finished) /\ WF_vars(Close) /\ WF_vars(Join) /\ WF_vars(Taken)
Spec == Init /\ [][Next]_vars /\ Fair
AllEnded == main = "end" /\ rl = "end" /\ \A x \in Workers : w[x] = "end"
(* Nothing is given back while the session could still ask for it *)
Order == given => \A x \in Workers : w[x] = "end"
(* Once it has been ended, by either side, everything stops, and what it held is given back *)
Ends == [](conn # "open" => <>(AllEnded /\ given))
(* and one that takes nothing is ended *)
DeafEnds == [](main = "close" => <>AllEnded)
=============================================================================
