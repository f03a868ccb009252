-------------------------------- MODULE MIdle --------------------------------
(* A session with its two clocks: a ticker of period Ping, at which something is said, and a
   deadline that every read moves to Dead from now. Steps are of half a minute; at one
   instant, whatever is due comes in any order, and a peer may say something, or a message in
   parts, or nothing. What is said before the deadline is noticed is read.
   Every schedule of the peer is printed as a script for the real code. *)
EXTENDS Idle, TLC, Json, IOUtils
CONSTANTS Ping, Dead, Horizon
VARIABLES now, c, ping, read, left, pattern
vars == <<now, c, ping, read, left, pattern>>
(* read: when the read that waits began; left: what may still happen at this instant *)
Init == /\ now = 0 /\ c = [from |-> 0, ins |-> <<>>, outs |-> <<0>>, by |-> "", at |-> 0]
        /\ ping = Ping /\ read = 0 /\ left = {"talk", "ping"} /\ pattern = <<>>
Open == c.by = ""
Talk(b) == /\ "talk" \in left /\ left' = left \ {"talk"}
           /\ pattern' = Append(pattern, b)
           /\ IF b /\ Open THEN /\ c' = [c EXCEPT !.ins = Append(@, now)] /\ read' = now
                           ELSE UNCHANGED <<c, read>>
           /\ UNCHANGED <<now, ping>>
Say == /\ "ping" \in left /\ left' = left \ {"ping"}
       /\ IF Open /\ ping = now THEN c' = [c EXCEPT !.outs = Append(@, now)] /\ ping' = now + Ping
                                ELSE UNCHANGED <<c, ping>>
       /\ UNCHANGED <<now, read, pattern>>
(* the deadline passes: the read fails, and the session is ended *)
Expire == /\ Open /\ now - read >= Dead
          /\ c' = [c EXCEPT !.by = "them", !.at = now]
          /\ UNCHANGED <<now, ping, read, left, pattern>>
Tick == /\ left = {} /\ now < Horizon /\ ~(Open /\ now - read >= Dead)
        /\ now' = now + 1 /\ left' = {"talk", "ping"} /\ UNCHANGED <<c, ping, read, pattern>>
Next == (\E b \in BOOLEAN : Talk(b)) \/ Say \/ Expire \/ Tick
Spec == Init /\ [][Next]_vars
Quiet == left = {} /\ ~(Open /\ now - read >= Dead)
Lives == Quiet => Speaks(c, c.from, now) /\ Keeps(c) /\ Drops(c, now)
Emit == IOEnv.OUT = "" \/ ~(Quiet /\ now = Horizon) \/ PrintT("GEN " \o ToJson([p |-> pattern]))
=============================================================================
