-------------------------------- MODULE Idle --------------------------------
(* Quiet connections. A connection c is a record of instants:
     from    when it was opened,
     ins     when the peer said something,
     outs    when the client did,
     by      who ended it ("" nobody, "us" the peer, "them" the client), and at, when.
   The peer may think that a client which is silent for Alive is dead, and the client
   may think so of the peer: it has Grace to act on that. *)
EXTENDS Integers, Sequences
CONSTANTS Alive, Grace

(* The last thing that the peer said (times do not decrease). *)
Heard(c) == IF c.ins = <<>> THEN c.from ELSE c.ins[Len(c.ins)]
EndOf(c, now) == IF c.by = "" THEN now ELSE c.at

(* While it is open, there is always something new from the client before Alive has passed. *)
Speaks(c, since, now) ==
  LET o == <<since>> \o SelectSeq(c.outs, LAMBDA t : t >= since) \o <<EndOf(c, now)>>
  IN \A i \in 1..(Len(o) - 1) : o[i + 1] - o[i] < Alive

(* It is not ended by the client while the peer is alive. (What comes at the very instant may
   come too late.) *)
Keeps(c) == c.by = "them" => \A t \in {c.from} \cup {c.ins[i] : i \in DOMAIN c.ins} : t < c.at => c.at - t >= Alive

(* And it is, if the peer is not. *)
Drops(c, now) == EndOf(c, now) - Heard(c) <= Alive + Grace
=============================================================================
