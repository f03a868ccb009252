-------------------------------- MODULE Wire --------------------------------
(* The messages that peers exchange, and how they are written as bytes (BEP 3).
   A message is a record [t, a, b, c, block]: its type, up to three numbers
   of four bytes each (0 where there is none), and bytes. *)
EXTENDS Naturals, Sequences

Zero4 == <<0, 0, 0, 0>>
Msg(t, a, b, c, block) == [t |-> t, a |-> a, b |-> b, c |-> c, block |-> block]
TypeId == [choke |-> 0, unchoke |-> 1, interested |-> 2, uninterested |-> 3, have |-> 4,
           bitfield |-> 5, request |-> 6, piece |-> 7, keepalive |-> 255]
Plain == {"choke", "unchoke", "interested", "uninterested"}
PlainName == <<"choke", "unchoke", "interested", "uninterested">>

Bytes4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>

(* The number of bytes after the four that tell it. *)
LenOf(m) == CASE m.t = "keepalive" -> 0
              [] m.t \in Plain -> 1
              [] m.t = "have" -> 5
              [] m.t = "request" -> 13
              [] m.t = "bitfield" -> 1 + Len(m.block)
              [] m.t = "piece" -> 9 + Len(m.block)

Encoded(m) ==
  IF m.t = "keepalive" THEN Zero4
  ELSE Bytes4(LenOf(m)) \o <<TypeId[m.t]>> \o
       (CASE m.t \in Plain -> <<>>
          [] m.t = "have" -> m.a
          [] m.t = "request" -> m.a \o m.b \o m.c
          [] m.t = "bitfield" -> m.block
          [] m.t = "piece" -> m.a \o m.b \o m.block)

(* The message at the start of bytes d from position p (0 is before the first): [k, n, m], where k
   is "ok" if there is one, of n bytes; "bad" if the frame is incomplete, of an unknown
   type, or wrong; "any" for an empty bitfield, that no torrent has. *)
Bad == [k |-> "bad", n |-> 0, m |-> Msg("keepalive", Zero4, Zero4, Zero4, <<>>)]
Sub(d, p, i, j) == SubSeq(d, p + i, p + j)
DecodeAt(d, p) ==
  LET left == Len(d) - p
      h == Sub(d, p, 1, 4)
      len == h[2] * 65536 + h[3] * 256 + h[4]
      t == d[p + 5]
      Ok(m) == [k |-> "ok", n |-> 4 + len, m |-> m]
  IN IF left < 4 THEN Bad
     ELSE IF h[1] > 0 THEN Bad          (* longer than anything recorded *)
     ELSE IF len = 0 THEN Ok(Bad.m)
     ELSE IF left < 4 + len THEN Bad
     ELSE CASE t <= 3 /\ len = 1 -> Ok(Msg(PlainName[t + 1], Zero4, Zero4, Zero4, <<>>))
            [] t = 4 /\ len = 5 -> Ok(Msg("have", Sub(d, p, 6, 9), Zero4, Zero4, <<>>))
            [] t = 5 -> [Ok(Msg("bitfield", Zero4, Zero4, Zero4, Sub(d, p, 6, 4 + len)))
                           EXCEPT !.k = IF len = 1 THEN "any" ELSE "ok"]
            [] t = 6 /\ len = 13 -> Ok(Msg("request", Sub(d, p, 6, 9), Sub(d, p, 10, 13), Sub(d, p, 14, 17), <<>>))
            [] t = 7 /\ len >= 9 -> Ok(Msg("piece", Sub(d, p, 6, 9), Sub(d, p, 10, 13), Zero4, Sub(d, p, 14, 4 + len)))
            [] OTHER -> Bad

(* All well-formed messages up to the first frame that is not: [ms, p], p the bytes read. *)
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(d, p, ms) ==
  IF DecodeAt(d, p).k = "ok" THEN DecodeFrom(d, p + DecodeAt(d, p).n, Append(ms, DecodeAt(d, p).m))
  ELSE [ms |-> ms, p |-> p]
DecodePrefix(d) == DecodeFrom(d, 0, <<>>)

RECURSIVE EncodedAll(_)
EncodedAll(ms) == IF ms = <<>> THEN <<>> ELSE Encoded(Head(ms)) \o EncodedAll(Tail(ms))
RECURSIVE SizeOf(_)
SizeOf(ms) == IF ms = <<>> THEN 0 ELSE 4 + LenOf(Head(ms)) + SizeOf(Tail(ms))
=============================================================================
