-------------------------------- MODULE JIdle --------------------------------
(* Recorded sessions in virtual time (C31): all is judged that JSession judges of a connection,
   and the instants, in ms. *)
EXTENDS JSession, Idle
CONSTANT Stuck        \* how long one that takes nothing may be kept

Instants(c) == [from |-> c.opened, ins |-> c.ins, outs |-> c.outs, by |-> c.by, at |-> c.at]
Shook(g, c) == GoodHand(c.sent, g.ih)
(* offences may end a connection *)
Offends(g, c) == ~Shook(g, c) \/ \E i \in DOMAIN DuesOf(g, c.sent, HandLen) : DuesOf(g, c.sent, HandLen)[i].k \in {"offence", "maybe"}
(* One that was ended because the peer is dead broke no other promise; what came at that very
   instant may have come too late. *)
Excused(c) ==
  LET d == [c EXCEPT !.loose = @ \/ (c.by # "" /\ (\E i \in DOMAIN c.ins : c.ins[i] = c.at))]
  IN IF c.by = "them" /\ Keeps(Instants(c)) THEN [d EXCEPT !.by = "us"] ELSE d

QuietOK(e, c) ==
  LET i == Instants(c)
  IN IF c.deaf >= 0
     THEN EndOf(i, e.until) - c.deaf <= Stuck
     ELSE /\ Shook(e.tor, c) => Speaks(i, IF c.outs = <<>> THEN c.opened ELSE c.outs[1], e.until)
          /\ Offends(e.tor, c) \/ Keeps(i)
          /\ Drops(i, e.until)
VirtualOK(e) ==
  /\ \A k \in DOMAIN e.links :
       /\ QuietOK(e, e.links[k])
       /\ ~Shook(e.tor, e.links[k]) => e.links[k].got = <<>>
       /\ Shook(e.tor, e.links[k]) => LinkOK(e.tor, e.pid, Excused(e.links[k]))
       /\ Shook(e.tor, e.links[k]) => AsksOK(e.tor, e.links[k])
  /\ \A j, k \in DOMAIN e.links : j # k => ApartOK(e.tor, e.links[j], e.links[k])
  /\ WantedOK(e.tor, e.links)
  /\ e.left <= 0
JudgedIdle == LET e == Trace[l] IN e.x = "ok" /\ VirtualOK(e)

(* What it says of the requests (C22) and of the ends of sessions (C19) alone. *)
JudgedAsks == LET e == Trace[l]
              IN /\ e.x = "ok"
                 /\ \A k \in DOMAIN e.links : Shook(e.tor, e.links[k]) => AsksOK(e.tor, e.links[k])
                 /\ \A j, k \in DOMAIN e.links : j # k => ApartOK(e.tor, e.links[j], e.links[k])
                 /\ WantedOK(e.tor, e.links)
JudgedBack == LET e == Trace[l]
              IN /\ e.x = "ok" /\ e.left <= 0
                 /\ WantedOK(e.tor, e.links)
                 /\ \A k \in DOMAIN e.links : LET c == e.links[k] IN c.deaf < 0 => Drops(Instants(c), e.until)
=============================================================================
