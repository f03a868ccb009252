------------------------------- MODULE Tracker -------------------------------
(* What is said to the tracker, and what is made of its answers.

   Texts are sequences of bytes, counts are sequences of decimal digits. *)
EXTENDS Bencode, FiniteSets

cSlash == 47
cQuery == 63
cAmp == 38
cEq == 61
cPercent == 37
cPlus == 43
cHash == 35
cDot == 46

RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, c, p, cur) ==
  IF p > Len(s) THEN <<cur>>
  ELSE IF s[p] = c THEN <<cur>> \o SplitFrom(s, c, p + 1, <<>>)
  ELSE SplitFrom(s, c, p + 1, Append(cur, s[p]))
SplitOn(s, c) == SplitFrom(s, c, 1, <<>>)

(* The part before the first c, and the part after it. *)
RECURSIVE FirstAt(_, _, _)
FirstAt(s, c, p) == IF p > Len(s) \/ s[p] = c THEN p ELSE FirstAt(s, c, p + 1)
Before(s, c) == SubSeq(s, 1, FirstAt(s, c, 1) - 1)
After(s, c) == SubSeq(s, FirstAt(s, c, 1) + 1, Len(s))

(***************************************************************************)
(* Percent-encoding (RFC 3986, and the plus sign of forms)                 *)
(***************************************************************************)
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE 16
IsHex(c) == HexVal(c) < 16

RECURSIVE UnescFrom(_, _, _)
UnescFrom(s, p, plus) ==
  IF p > Len(s) THEN <<>>
  ELSE IF s[p] = cPercent /\ p + 2 <= Len(s) /\ IsHex(s[IF p + 1 <= Len(s) THEN p + 1 ELSE p]) /\ IsHex(s[IF p + 2 <= Len(s) THEN p + 2 ELSE p])
       THEN <<16 * HexVal(s[p + 1]) + HexVal(s[p + 2])>> \o UnescFrom(s, p + 3, plus)
  ELSE <<IF plus /\ s[p] = cPlus THEN 32 ELSE s[p]>> \o UnescFrom(s, p + 1, plus)
Unesc(s) == UnescFrom(s, 1, TRUE)

(* The parameters of a query, in order. *)
Param(x) == [k |-> Unesc(Before(x, cEq)), v |-> Unesc(After(x, cEq))]
RECURSIVE ParamsOf(_)
ParamsOf(parts) == IF parts = <<>> THEN <<>>
                   ELSE (IF Head(parts) = <<>> THEN <<>> ELSE <<Param(Head(parts))>>) \o ParamsOf(Tail(parts))
Params(q) == ParamsOf(SplitOn(q, cAmp))

(* A path as its decoded segments; no path is the root. *)
PathOf(p) == LET q == IF p = <<>> THEN <<cSlash>> ELSE p
                 s == SplitOn(q, cSlash)
             IN [i \in 1..Len(s) |-> UnescFrom(s[i], 1, FALSE)]

(***************************************************************************)
(* Announce requests                                                       *)
(***************************************************************************)
kInfoHash == <<105,110,102,111,95,104,97,115,104>>
kPeerId == <<112,101,101,114,95,105,100>>
kPort == <<112,111,114,116>>
kUploaded == <<117,112,108,111,97,100,101,100>>
kDownloaded == <<100,111,119,110,108,111,97,100,101,100>>
kLeft == <<108,101,102,116>>
kCompact == <<99,111,109,112,97,99,116>>
OurKeys == {kInfoHash, kPeerId, kPort, kUploaded, kDownloaded, kLeft, kCompact}

(* What the request for these facts has to say, beside what is in the URL. *)
Said(w) == << [k |-> kInfoHash, v |-> w.ih], [k |-> kPeerId, v |-> w.pid],
              [k |-> kPort, v |-> Ascii(NatDigits(w.port))],
              [k |-> kUploaded, v |-> Ascii(w.up)], [k |-> kDownloaded, v |-> Ascii(w.dn)],
              [k |-> kLeft, v |-> Ascii(w.left)], [k |-> kCompact, v |-> <<49>>] >>

Times(ps, x) == Cardinality({i \in 1..Len(ps) : ps[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Times(a, a[i]) = Times(b, a[i])

(* own is the announce URL from its path on, target what was requested. *)
TargetOK(own, target, w) ==
  LET o == Before(own, cHash)
  IN /\ PathOf(Before(target, cQuery)) = PathOf(Before(o, cQuery))
     /\ SameBag(Params(After(target, cQuery)), Params(After(o, cQuery)) \o Said(w))

Foreign(own) == LET p == Params(After(Before(own, cHash), cQuery))
                IN \A i \in 1..Len(p) : p[i].k \notin OurKeys

(* The counts that are announced. *)
StatsStep(st, o) ==
  CASE o.k = "up" -> [st EXCEPT !.up = BigAdd(@, o.n)]
    [] o.k = "dn" -> [st EXCEPT !.dn = BigAdd(@, o.n)]
    [] o.k = "left" -> [st EXCEPT !.left = IF BigLess(o.n, @) THEN BigSub(@, o.n) ELSE <<0>>]
RECURSIVE StatsRun(_, _)
StatsRun(st, ops) == IF ops = <<>> THEN st ELSE StatsRun(StatsStep(st, Head(ops)), Tail(ops))
RECURSIVE StatsTrail(_, _)
StatsTrail(st, ops) == <<st>> \o (IF ops = <<>> THEN <<>> ELSE StatsTrail(StatsStep(st, Head(ops)), Tail(ops)))

(***************************************************************************)
(* Addresses as texts, as 16 bytes                                         *)
(***************************************************************************)
NoAddr == <<>>
V4(a) == <<0,0,0,0, 0,0,0,0, 0,0,255,255>> \o a

Octet(s) == IF Len(s) \notin 1..3 THEN 256
            ELSE IF \E i \in 1..Len(s) : ~IsDig(s[i]) THEN 256
            ELSE IF Len(s) > 1 /\ s[1] = 48 THEN 256
            ELSE DigitsVal([i \in 1..Len(s) |-> s[i] - 48])
Ip4(s) == LET p == SplitOn(s, cDot)
          IN IF Len(p) # 4 THEN NoAddr
             ELSE IF \E i \in 1..4 : Octet(p[i]) > 255 THEN NoAddr
             ELSE [i \in 1..4 |-> Octet(p[i])]

RECURSIVE HexNum(_)
HexNum(s) == IF s = <<>> THEN 0 ELSE 16 * HexNum(SubSeq(s, 1, Len(s) - 1)) + HexVal(s[Len(s)])
GroupOK(s) == Len(s) \in 1..4 /\ \A i \in 1..Len(s) : IsHex(s[i])
Group(s) == <<HexNum(s) \div 256, HexNum(s) % 256>>
Bad6 == <<256>>
(* The bytes of groups between colons; only the last may be a dotted quad. *)
RECURSIVE Groups(_, _)
Groups(g, tail) ==
  IF g = <<>> THEN <<>>
  ELSE IF Len(g) = 1 /\ tail /\ Ip4(g[1]) # NoAddr THEN Ip4(g[1])
  ELSE IF ~GroupOK(Head(g)) THEN Bad6
  ELSE LET r == Groups(Tail(g), tail) IN IF r = Bad6 THEN Bad6 ELSE Group(Head(g)) \o r
Half(s, tail) == IF s = <<>> THEN <<>> ELSE Groups(SplitOn(s, cColon), tail)

DoubleAt(s) == LET d == {i \in 1..(Len(s) - 1) : s[i] = cColon /\ s[i + 1] = cColon}
               IN IF d = {} THEN 0 ELSE CHOOSE i \in d : \A j \in d : i <= j
Ip6(s) ==
  LET d == DoubleAt(s)
  IN IF d = 0 THEN LET b == Half(s, TRUE) IN IF b # Bad6 /\ Len(b) = 16 THEN b ELSE NoAddr
     ELSE LET a == Half(SubSeq(s, 1, d - 1), FALSE)
              z == Half(SubSeq(s, d + 2, Len(s)), TRUE)
          IN IF a = Bad6 \/ z = Bad6 THEN NoAddr
             ELSE IF Len(a) + Len(z) > 14 THEN NoAddr
             ELSE a \o [i \in 1..(16 - (Len(a) + Len(z))) |-> 0] \o z

Ip(s) == IF Ip4(s) # NoAddr THEN V4(Ip4(s))
         ELSE IF s # <<>> /\ Ip6(s) # NoAddr THEN Ip6(s) ELSE NoAddr

(***************************************************************************)
(* Answers                                                                 *)
(***************************************************************************)
kFailure == <<102,97,105,108,117,114,101,32,114,101,97,115,111,110>>
kInterval == <<105,110,116,101,114,118,97,108>>
kComplete == <<99,111,109,112,108,101,116,101>>
kIncomplete == <<105,110,99,111,109,112,108,101,116,101>>
kPeers == <<112,101,101,114,115>>
kWarning == <<119,97,114,110,105,110,103,32,109,101,115,115,97,103,101>>
kMinInterval == <<109,105,110,32,105,110,116,101,114,118,97,108>>
kIp == <<105,112>>
kPeerIdSp == <<112,101,101,114,32,105,100>>

IsT(kv, k, t) == HasKey(kv, k) /\ Lookup(kv, k).t = t
IsUint(kv, k) == IsT(kv, k, "i") /\ ~Lookup(kv, k).neg
Uint(kv, k) == Lookup(kv, k).d

(* Six bytes a peer. *)
Compact(b) == [i \in 1..(Len(b) \div 6) |->
                LET o == 6 * (i - 1)
                IN [c |-> "good", p |-> [id |-> <<>>, ip |-> V4(SubSeq(b, o + 1, o + 4)), port |-> 256 * b[o + 5] + b[o + 6]]]]

(* An entry of the list is good, impossible (an address or port that no peer has), or
   broken: it is no dictionary, or lacks or mistypes what an entry consists of. *)
Entry(v) ==
  IF v.t # "d" THEN [c |-> "broken"]
  ELSE IF ~IsT(v.kv, kIp, "s") \/ ~IsT(v.kv, kPort, "i") \/ ~IsT(v.kv, kPeerIdSp, "s") THEN [c |-> "broken"]
  ELSE LET a == Ip(Lookup(v.kv, kIp).b)
           d == Uint(v.kv, kPort)
       IN IF a = NoAddr \/ ~IsUint(v.kv, kPort) \/ BigLess(<<6,5,5,3,5>>, d) THEN [c |-> "bad"]
          ELSE [c |-> "good", p |-> [id |-> Lookup(v.kv, kPeerIdSp).b, ip |-> a, port |-> DigitsVal(d)]]

PeersOf(v) == IF v.t = "s" THEN Compact(v.b) ELSE [i \in 1..Len(v.v) |-> Entry(v.v[i])]

(* What the answer is: refused, or read; "either" if the protocol leaves it open. *)
Answer(body) ==
  LET r == Parse(body)
  IN IF ~r.ok THEN [class |-> "no"]
     ELSE IF r.v.t # "d" THEN [class |-> "no"]
     ELSE LET kv == r.v.kv
              sure == r.canon /\ r.p = Len(body) + 1
          IN IF IsT(kv, kFailure, "s") THEN [class |-> IF r.dup THEN "any" ELSE "no"]
             ELSE IF ~IsUint(kv, kInterval) \/ ~IsUint(kv, kComplete) \/ ~IsUint(kv, kIncomplete)
                  THEN [class |-> IF r.dup THEN "any" ELSE "no"]
             ELSE IF ~IsT(kv, kPeers, "s") /\ ~IsT(kv, kPeers, "l") THEN [class |-> IF r.dup THEN "any" ELSE "no"]
             ELSE LET pv == Lookup(kv, kPeers)
                  IN IF pv.t = "s" /\ Len(pv.b) % 6 # 0 THEN [class |-> IF r.dup THEN "any" ELSE "no"]
                     ELSE LET es == PeersOf(pv)
                              broken == \E i \in 1..Len(es) : es[i].c = "broken"
                              clean == /\ \A i \in 1..Len(es) : es[i].c = "good"
                                       /\ ~HasKey(kv, kFailure)
                                       /\ HasKey(kv, kWarning) => IsT(kv, kWarning, "s")
                                       /\ HasKey(kv, kMinInterval) => IsUint(kv, kMinInterval)
                          IN [class |-> IF r.dup THEN "any" ELSE IF broken THEN "no" ELSE IF sure /\ clean THEN "must" ELSE "either",
                              interval |-> Uint(kv, kInterval), seeders |-> Uint(kv, kComplete), leechers |-> Uint(kv, kIncomplete),
                              warning |-> IF IsT(kv, kWarning, "s") THEN Lookup(kv, kWarning).b ELSE <<>>,
                              mininterval |-> IF IsUint(kv, kMinInterval) THEN Uint(kv, kMinInterval) ELSE <<0>>,
                              entries |-> es]

(* The good ones, in order. *)
Usable(e) == e.c = "good"
Matches(es, ps) == LET g == SelectSeq(es, Usable)
                   IN Len(g) = Len(ps) /\ \A i \in 1..Len(g) : g[i].p = ps[i]

Reads(a, out) == /\ out.interval = a.interval /\ out.seeders = a.seeders /\ out.leechers = a.leechers
                 /\ out.warning = a.warning /\ out.mininterval = a.mininterval
                 /\ Matches(a.entries, [i \in 1..Len(out.peers) |-> [id |-> out.peers[i].id, ip |-> out.peers[i].ip, port |-> out.peers[i].port]])
                 (* where a peer is called is where it was said to be *)
                 /\ \A i \in 1..Len(out.peers) : out.peers[i].dial = [ip |-> out.peers[i].ip, port |-> out.peers[i].port]

AnswerOK(body, cut, out) ==
  LET a == Answer(body)
  IN IF cut THEN ~out.ok /\ out.peers = <<>>      \* the connection broke before all of it had come
     ELSE IF ~out.ok THEN a.class # "must" /\ out.peers = <<>>
     ELSE CASE a.class = "no" -> FALSE
            [] a.class = "any" -> TRUE
            [] OTHER -> Reads(a, out)
=============================================================================
