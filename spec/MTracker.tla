------------------------------ MODULE MTracker ------------------------------
(* Small universes of what a tracker may be told and may answer. TLC checks that
   Tracker says of each what it was built from, and writes them down for the real
   client to be tried on. *)
EXTENDS Tracker, Integers, SequencesExt, Json, IOUtils, TLC

S(b) == [t |-> "s", b |-> b]
I(n) == [t |-> "i", neg |-> n < 0, d |-> NatDigits(IF n < 0 THEN 0 - n ELSE n)]
L(s) == [t |-> "l", v |-> s]
KV(k, v) == [k |-> k, v |-> v]
DV(kv) == [t |-> "d", kv |-> kv]

(***************************************************************************)
(* Answers                                                                 *)
(***************************************************************************)
Lo == <<49,50,55,46,48,46,48,46,49>>           \* 127.0.0.1
Big == <<50,53,53,46,49,46,50,46,51>>          \* 255.1.2.3
Over == <<50,53,54,46,49,46,50,46,51>>         \* 256.1.2.3
Six == <<58,58,49>>                            \* ::1
Peer(ip, port) == DV(<<KV(kIp, S(ip)), KV(kPeerIdSp, S(Lo)), KV(kPort, I(port))>>)
Counts == {"ok", "absent", "neg", "str"}
PeerSorts == {"none", "two", "odd", "absent", "int", "dict", "lnone", "ltwo", "l6", "lport", "lneg", "lover", "lip", "lid", "llist", "mixed"}
PeersV(p) ==
  CASE p = "none" -> S(<<>>) [] p = "two" -> S(<<127,0,0,1,0,80, 255,1,2,3,255,255>>) [] p = "odd" -> S(<<127,0,0,1,0,80,1>>)
    [] p = "int" -> I(6) [] p = "dict" -> DV(<<>>) [] p = "lnone" -> L(<<>>)
    [] p = "ltwo" -> L(<<Peer(Lo, 80), Peer(Big, 65535)>>) [] p = "l6" -> L(<<Peer(Six, 1), Peer(Lo, 0)>>)
    [] p = "lport" -> L(<<Peer(Lo, 65536)>>) [] p = "lneg" -> L(<<Peer(Lo, 0 - 1), Peer(Lo, 1)>>) [] p = "lover" -> L(<<Peer(Over, 1)>>)
    [] p = "lip" -> L(<<DV(<<KV(kPeerIdSp, S(Lo)), KV(kPort, I(1))>>)>>)
    [] p = "lid" -> L(<<DV(<<KV(kIp, S(Lo)), KV(kPort, I(1))>>)>>)
    [] p = "llist" -> L(<<L(<<>>)>>)
    [] p = "mixed" -> L(<<Peer(Lo, 1), S(Lo), Peer(Big, 2)>>)
    [] OTHER -> S(<<>>)

Combos == [fail : {"absent", "str", "int"}, interval : Counts, complete : Counts, incomplete : Counts,
           peers : PeerSorts, warn : {"ok", "absent", "int"}, min : {"ok", "absent", "neg", "str"}]
Off(c) == Cardinality({f \in {"interval", "complete", "incomplete"} : c[f] # "ok"})
Kept == {c \in Combos : /\ Off(c) <= 1
                        /\ (c.warn # "ok" => c.fail = "absent")
                        /\ (c.min \in {"neg", "str"} => Off(c) = 0 /\ c.warn = "ok")}
Opt(c, k, v) == IF c = "absent" THEN <<>> ELSE <<KV(k, v)>>
CountV(c, n) == CASE c = "neg" -> I(0 - n) [] c = "str" -> S(<<49>>) [] OTHER -> I(n)
Body(c) == Enc(Norm(DV(
  Opt(c.fail, kFailure, IF c.fail = "int" THEN I(1) ELSE S(<<>>))
  \o Opt(c.interval, kInterval, CountV(c.interval, 1800)) \o Opt(c.complete, kComplete, CountV(c.complete, 3))
  \o Opt(c.incomplete, kIncomplete, CountV(c.incomplete, 40)) \o Opt(c.peers, kPeers, PeersV(c.peers))
  \o Opt(c.warn, kWarning, IF c.warn = "int" THEN I(1) ELSE S(Lo)) \o Opt(c.min, kMinInterval, CountV(c.min, 60)))))

GoodPeers == {"none", "two", "lnone", "ltwo", "l6"}
MaybePeers == {"lport", "lneg", "lover"}
ClassOf(c) ==
  IF c.fail = "str" \/ Off(c) > 0 \/ c.peers \notin (GoodPeers \cup MaybePeers) THEN "no"
  ELSE IF c.peers \in GoodPeers /\ c.fail = "absent" /\ c.warn # "int" /\ c.min \in {"ok", "absent"} THEN "must"
  ELSE "either"

AnswersRight(c) ==
  LET a == Answer(Body(c))
  IN /\ a.class = ClassOf(c)
     /\ a.class # "no" =>
          /\ a.interval = <<1,8,0,0>> /\ a.seeders = <<3>> /\ a.leechers = <<4,0>>
          /\ a.warning = IF c.warn = "ok" THEN Lo ELSE <<>>
          /\ a.mininterval = IF c.min = "ok" THEN <<6,0>> ELSE <<0>>
          /\ c.peers = "two" => [i \in 1..Len(a.entries) |-> a.entries[i].p] =
               <<[id |-> <<>>, ip |-> V4(<<127,0,0,1>>), port |-> 80], [id |-> <<>>, ip |-> V4(<<255,1,2,3>>), port |-> 65535]>>
          /\ c.peers = "ltwo" => a.entries = [i \in 1..2 |-> [PeersOf(PeersV("two"))[i] EXCEPT !.p.id = Lo]]
          (* an impossible peer is left out or the answer is refused: it is no other peer *)
          /\ c.peers \in {"lport", "lover", "lneg"} => ~Matches(a.entries, <<[id |-> Lo, ip |-> V4(<<127,0,0,1>>), port |-> 0]>>)

(***************************************************************************)
(* Requests                                                                *)
(***************************************************************************)
EscByte(b) == LET h(n) == IF n < 10 THEN 48 + n ELSE 55 + n IN <<cPercent, h(b \div 16), h(b % 16)>>
RECURSIVE Esc(_)
Esc(s) == IF s = <<>> THEN <<>> ELSE EscByte(Head(s)) \o Esc(Tail(s))
RECURSIVE JoinParams(_)
JoinParams(ps) == IF ps = <<>> THEN <<>>
                  ELSE Esc(Head(ps).k) \o <<cEq>> \o Esc(Head(ps).v) \o (IF Len(ps) = 1 THEN <<>> ELSE <<cAmp>> \o JoinParams(Tail(ps)))

Paths == { <<>>, <<47>>, <<47,97>>, <<47,97,37,50,70,98>>, <<47,97,47,98,46,112,104,112>>, <<47,43>> }
Queries == { <<>>, <<63>>, <<63,97,61,49>>, <<63,97>>, <<63,97,61,49,38,97,61,49>>, <<63,97,61,37,50,54,38,98,61,43>>, <<63,97,61,98,59,99>>, <<63,97,61,98,32,99>>, <<63,97,61,195,169>>,
             <<63,107,61,37,122,122>>, <<63,97,61,61,98>>, <<63,97,61,49,38,38,98,61,50>>, <<63,112,111,114,116,120,61,49>>, <<63,38>> }
Frags == { <<>>, <<35,102>>, <<35,63,120,61,49>> }
Owns == {p \o (q \o f) : p \in Paths, q \in Queries, f \in Frags}
Fact == [ih |-> <<0,37,38,43,61,255>>, pid |-> <<32,45>>, port |-> 6881, up |-> <<0>>, dn |-> <<1,2>>, left |-> <<9,9>>]
Ask(own, w) == LET o == Before(own, cHash)
               IN Before(o, cQuery) \o <<cQuery>> \o JoinParams(Params(After(o, cQuery)) \o Said(w))
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

RequestsRight(own) ==
  LET o == Before(own, cHash)
      root == IF Before(o, cQuery) = <<>> THEN <<cSlash>> ELSE Before(o, cQuery)
      all == Params(After(o, cQuery)) \o Said(Fact)
      T(ps) == root \o <<cQuery>> \o JoinParams(ps)
  IN /\ Foreign(own)
     /\ TargetOK(own, Ask(own, Fact), Fact)
     /\ TargetOK(own, T(Reverse(all)), Fact)
     /\ \A i \in 1..Len(all) : ~TargetOK(own, T(Without(all, i)), Fact) /\ ~TargetOK(own, T(Append(all, all[i])), Fact)
     /\ ~TargetOK(own, T([i \in 1..Len(all) |-> [k |-> all[i].k, v |-> Esc(all[i].v)]]), Fact)
     /\ \A f \in {"up", "dn", "left", "ih", "pid"} : ~TargetOK(own, Ask(own, Fact), [Fact EXCEPT ![f] = Append(@, 1)])

(***************************************************************************)
(* Counts                                                                  *)
(***************************************************************************)
CONSTANT Steps
Amounts == {0, 1, 3, 12}
VARIABLES at, c, own, st, ops
vars == <<at, c, own, st, ops>>
St0 == [up |-> 0, dn |-> 0, left |-> 13]
Init == /\ st = St0 /\ ops = <<>> /\ c = <<>> /\ own = <<>>
        /\ \/ \E p \in PeerSorts : at = <<"answers", p>>
           \/ \E p \in Paths, f \in Frags : at = <<"requests", p, f>>
           \/ at = <<"counts">>
Next == \/ at[1] = "answers" /\ c' \in {x \in Kept : x.peers = at[2]} /\ at' = <<"answer">> /\ UNCHANGED <<own, st, ops>>
        \/ at[1] = "requests" /\ (\E q \in Queries : own' = at[2] \o (q \o at[3])) /\ at' = <<"request">> /\ UNCHANGED <<c, st, ops>>
        \/ /\ at[1] = "counts" /\ Len(ops) < Steps
           /\ \E k \in {"up", "dn", "left"}, n \in Amounts :
             /\ ops' = Append(ops, [k |-> k, n |-> NatDigits(n)])
             /\ st' = CASE k = "up" -> [st EXCEPT !.up = @ + n] [] k = "dn" -> [st EXCEPT !.dn = @ + n]
                        [] k = "left" -> [st EXCEPT !.left = IF n > @ THEN 0 ELSE @ - n]
           /\ UNCHANGED <<at, c, own>>
Spec == Init /\ [][Next]_vars

Right == CASE at[1] = "answer" -> AnswersRight(c) [] at[1] = "request" -> RequestsRight(own) [] OTHER -> TRUE
Big0(s) == [up |-> NatDigits(s.up), dn |-> NatDigits(s.dn), left |-> NatDigits(s.left)]
StatsRight == /\ st.left \in 0..13
              /\ StatsRun(Big0(St0), ops) = Big0(st)
Tell == IOEnv.OUT = "" \/ Len(ops) < Steps \/ PrintT("GEN " \o ToJson([ops |-> ops]))

ASSUME \A b \in 0..255 : Unesc(EscByte(b)) = <<b>> /\ Unesc(<<b>>) = <<IF b = cPlus THEN 32 ELSE b>>
AddressLaws ==
  /\ Ip(Lo) = V4(<<127,0,0,1>>) /\ Ip(Over) = NoAddr /\ Ip(Six) = [i \in 1..16 |-> IF i = 16 THEN 1 ELSE 0]
  /\ Ip(<<58,58>>) = [i \in 1..16 |-> 0] /\ Ip(<<58>>) = NoAddr /\ Ip(<<58,58,58>>) = NoAddr /\ Ip(<<>>) = NoAddr
  /\ Ip(<<49,58,58,50,58,58,51>>) = NoAddr                                   \* 1::2::3
  /\ Ip(<<58,58,102,102,102,102,58>> \o Lo) = V4(<<127,0,0,1>>)              \* ::ffff:127.0.0.1
  /\ Ip(<<49,46,50,46,51>>) = NoAddr /\ Ip(<<48,49,46,50,46,51,46,52>>) = NoAddr
  /\ \A n \in 0..300 : LET o == Octet(Ascii(NatDigits(n))) IN IF n < 256 THEN o = n ELSE o > 255
ASSUME AddressLaws
ASSUME IOEnv.OUT = "" \/ \A x \in Kept : PrintT("GEN " \o ToJson([body |-> Body(x)]))
ASSUME IOEnv.OUT = "" \/ \A x \in Owns : PrintT("GEN " \o ToJson([own |-> x]))
=============================================================================
