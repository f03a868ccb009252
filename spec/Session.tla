------------------------------- MODULE Session -------------------------------
(* What a client does on its connections. A torrent g is [plen, total, held, ih]:
   its piece length and payload length, the indices of the pieces held, and its
   infohash. The payload is a fixed function of the offset. *)
EXTENDS Wire, Integers, FiniteSets

ByteAt(o) == (7 * o + 13 * (o \div 256) + 5) % 256
NP(g) == (g.total + (g.plen - 1)) \div g.plen
PieceLen(g, i) == IF i = NP(g) - 1 THEN g.total - i * g.plen ELSE g.plen
Held(g) == {g.held[i] : i \in 1..Len(g.held)}
Lacked(g) == (0..(NP(g) - 1)) \ Held(g)
LeftOf(g) == LET s == Lacked(g)
             IN g.plen * Cardinality(s) - (IF NP(g) - 1 \in s THEN NP(g) * g.plen - g.total ELSE 0)

BitsOf(g) ==
  LET held == Held(g)
  IN [j \in 1..((NP(g) + 7) \div 8) |->
               LET b(k) == IF 8 * (j - 1) + k \in held THEN 1 ELSE 0
               IN 128 * b(0) + 64 * b(1) + 32 * b(2) + 16 * b(3) + 8 * b(4) + 4 * b(5) + 2 * b(6) + b(7)]

(* A number of four bytes, if it fits in 31 bits; otherwise it is out of any range. *)
Huge == 2147483647
Num(b) == IF b[1] >= 128 THEN Huge ELSE ((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4]

(***************************************************************************)
(* Handshakes                                                              *)
(***************************************************************************)
Pstr == <<19, 66,105,116,84,111,114,114,101,110,116,32, 112,114,111,116,111,99,111,108>>
HandLen == 68
GoodHand(d, ih) == /\ Len(d) >= HandLen
                   /\ SubSeq(d, 1, 20) = Pstr
                   /\ SubSeq(d, 29, 48) = ih
HandId(d) == SubSeq(d, 49, 68)

(***************************************************************************)
(* The frames that a stream is made of, well-formed or not                 *)
(***************************************************************************)
FrameLen(d, p) == Num(SubSeq(d, p + 1, p + 4))
(* The kinds of what follows position p of d, up to the first that is not complete. *)
RECURSIVE SomeFrames(_, _, _)      \* k at most
SomeFrames(d, p, k) ==
  IF k = 0 \/ Len(d) - p < 4 THEN <<>>
  ELSE IF FrameLen(d, p) > (Len(d) - p) - 4 THEN << [from |-> p, len |-> FrameLen(d, p), whole |-> FALSE] >>
  ELSE << [from |-> p, len |-> FrameLen(d, p), whole |-> TRUE] >> \o SomeFrames(d, p + 4 + FrameLen(d, p), k - 1)
RECURSIVE FramesFrom(_, _)         \* (deep recursions are slow in TLC)
FramesFrom(d, p) ==
  LET fs == SomeFrames(d, p, 64)
  IN IF Len(fs) < 64 THEN fs
     ELSE IF ~fs[64].whole THEN fs
     ELSE fs \o FramesFrom(d, fs[64].from + 4 + fs[64].len)

Patient == 1048576    \* longer frames need not be waited for

(* What is due for a frame:
     none      nothing
     answer    the piece message m, and nothing else
     maybe     m or nothing; the connection may end
     offence   nothing; the connection may end *)
Due(k) == [k |-> k, m |-> Bad.m]
Answer(g, m) ==
  LET i == Num(m.a)
      b == Num(m.b)
      n == Num(m.c)
      piece == Msg("piece", m.a, m.b, Zero4, [j \in 1..n |-> ByteAt(i * g.plen + (b + (j - 1)))])
  IN IF i >= NP(g) THEN Due("offence")
     ELSE IF i \notin Held(g) THEN Due("offence")
     ELSE IF b > PieceLen(g, i) \/ n > PieceLen(g, i) THEN Due("offence")
     ELSE IF b + n > PieceLen(g, i) THEN Due("offence")
     ELSE [k |-> IF n = 0 THEN "maybe" ELSE "answer", m |-> piece]

DueFor(g, d, f, first) ==
  IF ~f.whole THEN (IF f.len > Patient THEN Due("offence") ELSE Due("none"))
  ELSE LET r == DecodeAt(SubSeq(d, f.from + 1, f.from + 4 + f.len), 0)
           t == IF f.len = 0 THEN 255 ELSE d[f.from + 5]
       IN IF r.k # "ok" THEN (IF t > 7 /\ f.len <= Patient THEN Due("none") ELSE Due("offence"))
          ELSE CASE r.m.t = "request" -> Answer(g, r.m)
                 [] r.m.t = "have" -> IF Num(r.m.a) < NP(g) THEN Due("none") ELSE Due("offence")
                 [] r.m.t = "bitfield" ->
                      LET n == (NP(g) + 7) \div 8
                          spare == IF Len(r.m.block) = n /\ NP(g) % 8 # 0 THEN r.m.block[n] % (2 ^ (8 - (NP(g) % 8))) ELSE 0
                      IN IF Len(r.m.block) = n /\ spare = 0 /\ first THEN Due("none") ELSE Due("offence")
                 [] OTHER -> Due("none")
DuesOf(g, d, p) == LET fs == FramesFrom(d, p) IN [i \in 1..Len(fs) |-> DueFor(g, d, fs[i], i = 1)]

(* Pieces ps were sent for what was due, and then the connection was ended by the
   client (gone) or not. Of a loose connection we may have seen only a part. *)
RECURSIVE Fit(_, _, _, _)
Fit(ds, ps, gone, loose) ==
  IF loose /\ ps = <<>> THEN TRUE
  ELSE IF ds = <<>> THEN ps = <<>> /\ ~gone
  ELSE CASE Head(ds).k = "answer" -> ps # <<>> /\ Head(ps) = Head(ds).m /\ Fit(Tail(ds), Tail(ps), gone, loose)
         [] Head(ds).k = "maybe" -> \/ ps # <<>> /\ Head(ps) = Head(ds).m /\ Fit(Tail(ds), Tail(ps), gone, loose)
                                    \/ gone /\ ps = <<>>
                                    \/ Fit(Tail(ds), ps, gone, loose)
         [] Head(ds).k = "offence" -> (gone /\ ps = <<>>) \/ Fit(Tail(ds), ps, gone, loose)
Fits(ds, ps, gone, loose) == Fit(SelectSeq(ds, LAMBDA d : d.k # "none"), ps, gone, loose)

(***************************************************************************)
(* A connection: what we sent, what we got, who ended it                   *)
(***************************************************************************)
OfType(ms, T) == SelectSeq(ms, LAMBDA m : m.t \in T)
Told == {"choke", "unchoke", "bitfield"}

(* The messages after the handshake: all are well-formed, but for one that is cut off. *)
Said(got) ==
  LET fs == SelectSeq(FramesFrom(got, HandLen), LAMBDA f : f.whole)
  IN [i \in 1..Len(fs) |-> DecodeAt(SubSeq(got, fs[i].from + 1, fs[i].from + 4 + fs[i].len), 0)]
SaidOK(s) == \A i \in 1..Len(s) : s[i].k = "ok"
MessagesOf(s) == [i \in 1..Len(s) |-> s[i].m]

ServedOK(g, c, ms) == Fits(DuesOf(g, c.sent, HandLen), OfType(ms, {"piece"}), c.by = "them", c.loose)

IncomingOK(g, id, c) ==
  IF ~c.open \/ c.count THEN TRUE
  ELSE IF ~GoodHand(c.sent, g.ih) THEN c.got = <<>> /\ (c.loose \/ c.by = "them")
  ELSE LET s == Said(c.got)
           ms == MessagesOf(s)
           told == OfType(ms, Told)
       IN IF c.loose /\ Len(c.got) < HandLen THEN TRUE
          ELSE /\ GoodHand(c.got, g.ih)
               /\ HandId(c.got) = id
               /\ SaidOK(s)
               /\ \/ told = << Msg("bitfield", Zero4, Zero4, Zero4, BitsOf(g)), Msg("unchoke", Zero4, Zero4, Zero4, <<>>) >>
                  \/ c.loose /\ Len(told) < 2 /\ \A i \in 1..Len(told) : told[i] = Msg("bitfield", Zero4, Zero4, Zero4, BitsOf(g))
               /\ Len(ms) > 0 => ms[1].t = "bitfield"
               /\ ServedOK(g, c, ms)

(* To the peers of the tracker the client speaks first. *)
OutgoingOK(g, id, c) ==
  IF ~c.open \/ c.count THEN TRUE
  ELSE IF c.loose /\ Len(c.got) < HandLen THEN TRUE
  ELSE /\ GoodHand(c.got, g.ih)
       /\ HandId(c.got) = id
       /\ c.marks # <<>> => c.loose \/ c.marks[1].sent = 0
       /\ IF ~GoodHand(c.sent, g.ih) THEN Len(c.got) = HandLen /\ (c.loose \/ c.by = "them")
          ELSE LET s == Said(c.got)
                   ms == MessagesOf(s)
                   told == OfType(ms, Told)
               IN /\ SaidOK(s)
                  /\ \A i \in 1..Len(told) : told[i].t = "bitfield" => told[i].block = BitsOf(g)
                  /\ ServedOK(g, c, ms)

LinkOK(g, id, c) == IF c.out THEN OutgoingOK(g, id, c) ELSE IncomingOK(g, id, c)

(***************************************************************************)
(* What the client asks for                                                *)
(***************************************************************************)
(* Requests with the place where each ends in what we got. *)
RequestsOf(c) ==
  IF Len(c.got) < HandLen THEN <<>>
  ELSE LET fs == SelectSeq(FramesFrom(c.got, HandLen), LAMBDA f : f.whole /\ f.len = 13 /\ c.got[f.from + 5] = 6)
           At(f, k) == Num(SubSeq(c.got, f.from + 6 + 4 * k, f.from + 9 + 4 * k))
       IN [x \in 1..Len(fs) |-> [i |-> At(fs[x], 0), b |-> At(fs[x], 1), n |-> At(fs[x], 2), end |-> fs[x].from + 17]]

(* When a request had come, and what we had sent by then. *)
MarkOf(c, end) == c.marks[CHOOSE j \in 1..Len(c.marks) : c.marks[j].got >= end /\ (j = 1 \/ c.marks[j - 1].got < end)]

(* The pieces announced by the first n bytes sent. *)
AnnouncedBy(g, d, f) ==
  LET r == IF f.whole THEN DecodeAt(SubSeq(d, f.from + 1, f.from + 4 + f.len), 0) ELSE Bad
  IN CASE r.k # "ok" -> {}
       [] r.m.t = "have" -> {Num(r.m.a)}
       [] r.m.t = "bitfield" -> {x \in 0..(NP(g) - 1) : x \div 8 < Len(r.m.block) /\ (r.m.block[x \div 8 + 1] \div (2 ^ (7 - (x % 8)))) % 2 = 1}
       [] OTHER -> {}
Announced(g, c, n) ==
  IF n <= HandLen THEN {}
  ELSE LET d == SubSeq(c.sent, 1, n)
           fs == FramesFrom(d, HandLen)
       IN UNION {AnnouncedBy(g, d, fs[i]) : i \in 1..Len(fs)}

MaxBlock == 16384
(* The blocks asked for of a piece, in any order, are parts of it that do not meet. *)
PartsOfPiece(g, mine, i) ==
  /\ \A x \in 1..Len(mine) : mine[x].n \in 1..MaxBlock /\ mine[x].b < PieceLen(g, i) /\ mine[x].b + mine[x].n <= PieceLen(g, i)
  /\ \A x, y \in 1..Len(mine) : x < y => mine[x].b + mine[x].n <= mine[y].b \/ mine[y].b + mine[y].n <= mine[x].b
RECURSIVE SumN(_)
SumN(rs) == IF rs = <<>> THEN 0 ELSE Head(rs).n + SumN(Tail(rs))

(* All of the pieces asked for, of a peer that stays. *)
AsksOK(g, c) ==
  LET rs == RequestsOf(c)
      ps == {rs[x].i : x \in 1..Len(rs)}
  IN /\ ps \subseteq Lacked(g)
     /\ \A x \in 1..Len(rs) : rs[x].i \in Announced(g, c, MarkOf(c, rs[x].end).sent)
     /\ \A i \in ps : LET mine == SelectSeq(rs, LAMBDA r : r.i = i)
                      IN PartsOfPiece(g, mine, i) /\ (c.stays => SumN(mine) = PieceLen(g, i))

(* No piece is asked of a peer while it is another's: c had been asked for it before, and
   had not left when c2 was. *)
ApartOK(g, c, c2) ==
  LET r1 == RequestsOf(c)
      r2 == RequestsOf(c2)
  IN \A x \in 1..Len(r1), y \in 1..Len(r2) :
       r1[x].i = r2[y].i =>
         LET t1 == MarkOf(c, r1[x].end).t
             t2 == MarkOf(c2, r2[y].end).t
         IN t1 < t2 => c.by = "them" \/ (c.by = "us" /\ c.t < t2)

(* A peer that stays, and has announced pieces that are lacked, has been asked for one, or
   all of them have been asked of others that stay: those asked of peers that have left are
   asked again. *)
WantedOK(g, links) ==
  LET L == {k \in 1..Len(links) : links[k].open /\ ~links[k].count /\ links[k].stays}
      Asked(k) == {RequestsOf(links[k])[x].i : x \in 1..Len(RequestsOf(links[k]))}
      stay == {k \in L : ~links[k].loose /\ GoodHand(links[k].sent, g.ih)}
  IN \A k \in stay : LET w == Announced(g, links[k], Len(links[k].sent)) \cap Lacked(g)
                     IN w # {} => \/ Asked(k) \cap w # {}
                                  \/ w \subseteq UNION {Asked(j) : j \in L \ {k}}

(* The rarest pieces first, among the peers that stay: what the last of them, which announced all
   at once, is asked for. *)
RarestOK(g, links) ==
  LET L == {k \in 1..Len(links) : links[k].open /\ links[k].stays}
      an == [k \in L |-> Announced(g, links[k], Len(links[k].sent))]
      avail(i) == Cardinality({k \in L : i \in an[k]})
      rs == RequestsOf(links[Len(links)])
  IN /\ Len(links) \in L
     /\ \A x \in 1..(Len(rs) - 1) : avail(rs[x].i) <= avail(rs[x + 1].i)
=============================================================================
