-------------------------------- MODULE JWire --------------------------------
(* Recorded encodings and decodings (C13, C14). A record holds messages ms and
   a tail; what each message was encoded to; and the outcome of decoding the
   concatenation of the recorded encodings and the tail, from each boundary
   and altogether, before and after the buffer was overwritten. *)
EXTENDS Wire, Judge
R == Trace[l]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s).bytes \o Cat(Tail(s))
D == Cat(R.enc) \o R.tail

EncOK == /\ Len(R.enc) = Len(R.ms)
         /\ \A i \in DOMAIN R.ms : /\ R.enc[i].bytes = Encoded(R.ms[i])
                                   /\ R.enc[i].length = Bytes4(LenOf(R.ms[i]))
                                   /\ R.enc[i].mtype = TypeId[R.ms[i].t]
(* what the getters tell of a decoded message *)
SameMsg(o, m) == /\ o.m = m /\ o.length = Bytes4(LenOf(m)) /\ o.mtype = TypeId[m.t]
                 /\ o.bytes = Encoded(m)
                 /\ m.t = "bitfield" => o.nbits = 8 * Len(m.block)
OneOK(o) ==
  LET r == DecodeAt(D, o.at)
  IN CASE r.k = "ok" -> o.ok /\ o.n = r.n /\ Len(o.now) = 1 /\ SameMsg(o.now[1], r.m) /\ o.now = o.later
       [] r.k = "bad" -> ~o.ok /\ o.now = <<>>
       [] r.k = "any" -> o.ok => o.n = r.n /\ o.now = o.later
(* After a malformed frame decoding may resume anywhere, but what it returns must stand in
   the bytes in that order. *)
RECURSIVE Stand(_, _)
Stand(ms, p) ==
  IF ms = <<>> THEN TRUE
  ELSE LET At == {q \in p..(Len(D) - 1) : DecodeAt(D, q).k # "bad" /\ DecodeAt(D, q).m = Head(ms).m}
       IN At # {} /\ LET q == CHOOSE q \in At : \A z \in At : q <= z IN Stand(Tail(ms), q + DecodeAt(D, q).n)
AllOK ==
  LET r == DecodePrefix(D)
      o == R.all
      k == Len(r.ms)
  IN /\ Len(o.now) >= k
     /\ \A i \in 1..k : SameMsg(o.now[i], r.ms[i])
     /\ o.now = o.later
     /\ Stand(SubSeq(o.now, k + 1, Len(o.now)), r.p)
     /\ o.read = SizeOf([i \in 1..Len(o.now) |-> o.now[i].m])
RepeatedOK == /\ R.out.n = R.n * Len(R.ms) /\ R.out.right = R.out.n
              /\ R.size = SizeOf(R.ms) /\ R.out.read = R.n * R.size
Judged == R.x = "ok" /\ IF "n" \in DOMAIN R THEN RepeatedOK ELSE EncOK /\ (\A i \in DOMAIN R.ones : OneOK(R.ones[i])) /\ AllOK
=============================================================================
