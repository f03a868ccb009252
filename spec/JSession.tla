------------------------------ MODULE JSession ------------------------------
(* Recorded sessions of a client: its announce, its connections, its resources. *)
EXTENDS Session, Judge
T == INSTANCE Tracker
W == INSTANCE BigNum

ValueOf(ps, k) == ps[CHOOSE i \in 1..Len(ps) : ps[i].k = k].v
HasParam(ps, k) == \E i \in 1..Len(ps) : ps[i].k = k
AnnouncePath == <<47,97,110,110,111,117,110,99,101>>
ParamsOf(e) == T!Params(T!After(e.asked[1].target, 63))
AnnounceOK(e) ==
  /\ Len(e.asked) >= 1
  /\ HasParam(ParamsOf(e), T!kPeerId)
  /\ LET id == ValueOf(ParamsOf(e), T!kPeerId)
     IN /\ Len(id) = 20
        /\ T!TargetOK(AnnouncePath, e.asked[1].target,
             [ih |-> e.tor.ih, pid |-> id, port |-> e.port, up |-> <<0>>, dn |-> <<0>>, left |-> W!NatDigits(LeftOf(e.tor))])
Id(e) == ValueOf(ParamsOf(e), T!kPeerId)

(* Asked of the peers *)
AskingOK(e) ==
  /\ \A k \in 1..Len(e.links) : (e.links[k].open /\ ~e.links[k].count) => AsksOK(e.tor, e.links[k])
  /\ e.kind = "asks" =>
       /\ \A j, k \in 1..Len(e.links) :
            (j # k /\ e.links[j].open /\ e.links[k].open) => ApartOK(e.tor, e.links[j], e.links[k])
       /\ WantedOK(e.tor, e.links)
       /\ e.rarest => RarestOK(e.tor, e.links)

(* All that sessions held is given back when they are over. *)
StatsOK(e) == Len(e.stats) >= e.nstats /\ \A i \in 1..Len(e.stats) :
  /\ e.stats[i].goroutines <= e.stats[1].goroutines
  /\ e.stats[i].fds <= e.stats[1].fds
  /\ e.stats[i].heapkb <= e.stats[1].heapkb + e.allowkb

(* A limit on what is sent, on all connections together. *)
RECURSIVE Got(_, _)
Got(links, k) == IF k = 0 THEN 0 ELSE (IF links[k].count /\ links[k].ms >= 0 THEN links[k].ngot ELSE 0) + Got(links, k - 1)
Longest(links) == LET c == {links[k].ms : k \in {k \in 1..Len(links) : links[k].count}}
                  IN CHOOSE m \in c : \A x \in c : x <= m
PaceOK(e) ==
  /\ \A k \in 1..Len(e.links) : e.links[k].count => e.links[k].ngot >= e.links[k].atleast
  /\ e.limit > 0 => Got(e.links, Len(e.links)) <= (Longest(e.links) \div 1000 + 2) * (e.limit + e.unit) + 200 * Len(e.links)

(* What is wrong however late the client or we were: nothing here waits for anything. *)
CertainLink(e, c) ==
  LET g == e.tor
      s == Said(c.got)
      ms == MessagesOf(s)
  IN /\ Len(c.got) >= HandLen => GoodHand(c.got, g.ih)
     /\ IF ~GoodHand(c.sent, g.ih) THEN Len(c.got) <= (IF c.out THEN HandLen ELSE 0)
        ELSE /\ SaidOK(s)
             /\ \A i \in 1..Len(ms) : ms[i].t = "bitfield" => ms[i].block = BitsOf(g)
             /\ Fits(DuesOf(g, c.sent, HandLen), OfType(ms, {"piece"}), TRUE, TRUE)
             /\ AsksOK(g, [c EXCEPT !.stays = FALSE])
Certain == LET e == Trace[l]
           IN (e.x = "ok" /\ e.started) => \A k \in 1..Len(e.links) : (e.links[k].open /\ ~e.links[k].count) => CertainLink(e, e.links[k])

Judged == LET e == Trace[l]
          IN /\ e.x = "ok" /\ e.started /\ e.alive
             /\ AnnounceOK(e)
             /\ \A k \in 1..Len(e.links) : e.links[k].late => e.links[k].loose
             /\ \A k \in 1..Len(e.links) : LinkOK(e.tor, Id(e), e.links[k])
             /\ AskingOK(e) /\ StatsOK(e) /\ PaceOK(e)
=============================================================================
