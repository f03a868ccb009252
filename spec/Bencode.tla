------------------------------- MODULE Bencode -------------------------------
(* The bencoding of BEP 3 as used by gotor.

   Values are records with a field t:
     "i"  integers    [t, neg, d]   sign and decimal digits (BigNum)
     "s"  strings     [t, b]        a sequence of bytes
     "l"  lists       [t, v]        a sequence of values
     "d"  dictionaries [t, kv]      a sequence of [k, v], sorted by key
     "x"  anything else a program may pass to the encoder

   Enc is the canonical encoding. Parse is a reader that accepts the canonical
   encodings and, flagged as not canonical, the spellings that readers commonly
   tolerate (leading zeros in lengths, minus zero, unsorted or repeated keys). *)
EXTENDS BigNum, Naturals, Sequences

cI == 105
cL == 108
cD == 100
cE == 101
cColon == 58
cMinus == 45
IsDig(c) == c >= 48 /\ c <= 57

(***************************************************************************)
(* Order of byte strings                                                   *)
(***************************************************************************)
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE LexFrom(a, b, i + 1)
LexLess(a, b) == LexFrom(a, b, 1)

(* Insert or replace a key in a sorted sequence of pairs. *)
RECURSIVE PutKV(_, _, _)
PutKV(kv, k, v) ==
  IF kv = <<>> THEN << [k |-> k, v |-> v] >>
  ELSE LET n == Len(kv)
           last == kv[n]
       IN IF last.k = k THEN Append(SubSeq(kv, 1, n - 1), [k |-> k, v |-> v])
          ELSE IF LexLess(last.k, k) THEN Append(kv, [k |-> k, v |-> v])
          ELSE Append(PutKV(SubSeq(kv, 1, n - 1), k, v), last)

HasKey(kv, k) == \E i \in 1..Len(kv) : kv[i].k = k
Lookup(kv, k) == kv[CHOOSE i \in 1..Len(kv) : kv[i].k = k].v

(***************************************************************************)
(* Encoding                                                                *)
(***************************************************************************)
Ascii(d) == [i \in 1..Len(d) |-> d[i] + 48]
EncStr(b) == Ascii(NatDigits(Len(b))) \o <<cColon>> \o b

RECURSIVE Encodable(_)
Encodable(v) ==
  CASE v.t = "i" -> TRUE
    [] v.t = "s" -> v.b # <<>>
    [] v.t = "l" -> \A i \in 1..Len(v.v) : Encodable(v.v[i])
    [] v.t = "d" -> \A i \in 1..Len(v.kv) : v.kv[i].k # <<>> /\ Encodable(v.kv[i].v)
    [] OTHER -> FALSE

(* The same value, with sorted dictionaries and no further fields. *)
RECURSIVE Norm(_), NormKV(_, _, _)
NormKV(kv, i, acc) == IF i > Len(kv) THEN acc
                      ELSE NormKV(kv, i + 1, PutKV(acc, kv[i].k, Norm(kv[i].v)))
Norm(v) ==
  CASE v.t = "i" -> [t |-> "i", neg |-> v.neg, d |-> v.d]
    [] v.t = "s" -> [t |-> "s", b |-> v.b]
    [] v.t = "l" -> [t |-> "l", v |-> [i \in 1..Len(v.v) |-> Norm(v.v[i])]]
    [] v.t = "d" -> [t |-> "d", kv |-> NormKV(v.kv, 1, <<>>)]
    [] OTHER -> [t |-> "x", kind |-> v.kind]

RECURSIVE Enc(_), EncList(_, _), EncDict(_, _)
EncList(l, i) == IF i > Len(l) THEN <<>> ELSE Enc(l[i]) \o EncList(l, i + 1)
EncDict(kv, i) == IF i > Len(kv) THEN <<>>
                  ELSE EncStr(kv[i].k) \o Enc(kv[i].v) \o EncDict(kv, i + 1)
Enc(v) ==
  CASE v.t = "i" -> <<cI>> \o (IF v.neg THEN <<cMinus>> ELSE <<>>) \o Ascii(v.d) \o <<cE>>
    [] v.t = "s" -> EncStr(v.b)
    [] v.t = "l" -> <<cL>> \o EncList(v.v, 1) \o <<cE>>
    [] v.t = "d" -> <<cD>> \o EncDict(v.kv, 1) \o <<cE>>

(***************************************************************************)
(* Reading. A result is [ok, v, p, canon, dup]: the value, the position    *)
(* after it, whether its text was canonical, whether a key was repeated.   *)
(***************************************************************************)
Fail == [ok |-> FALSE]
Good(v, p, canon, dup) == [ok |-> TRUE, v |-> v, p |-> p, canon |-> canon, dup |-> dup]

RECURSIVE DigEnd(_, _)
DigEnd(s, p) == IF p <= Len(s) /\ IsDig(s[p]) THEN DigEnd(s, p + 1) ELSE p

Digs(s, p, q) == [i \in 1..(q - p) |-> s[p + i - 1] - 48]

ParseInt(s, p) ==
  LET neg == p + 1 <= Len(s) /\ s[p + 1] = cMinus
      a == IF neg THEN p + 2 ELSE p + 1
      q == DigEnd(s, a)
      d == Digs(s, a, q)
  IN IF q = a \/ q > Len(s) THEN Fail
     ELSE IF s[q] # cE THEN Fail
     ELSE IF Len(d) > 1 /\ d[1] = 0 THEN Fail
     ELSE IF ~InInt64(neg, d) THEN Fail
     ELSE Good([t |-> "i", neg |-> neg /\ d # <<0>>, d |-> d], q + 1,
               ~(neg /\ d = <<0>>), FALSE)

ParseStr(s, p) ==
  LET q == DigEnd(s, p)
      d == Digs(s, p, q)
      z == StripZeros(d)
  IN IF q = p \/ q > Len(s) THEN Fail
     ELSE IF s[q] # cColon THEN Fail
     ELSE IF Len(z) > 8 THEN Fail
     ELSE LET n == DigitsVal(z)
          IN IF q + n > Len(s) THEN Fail
             ELSE Good([t |-> "s", b |-> SubSeq(s, q + 1, q + n)], q + n + 1,
                       z = d, FALSE)

RECURSIVE ParseVal(_, _), ParseList(_, _, _, _, _), ParseDict(_, _, _, _, _)
ParseList(s, p, acc, canon, dup) ==
  IF p > Len(s) THEN Fail
  ELSE IF s[p] = cE THEN Good([t |-> "l", v |-> acc], p + 1, canon, dup)
  ELSE LET r == ParseVal(s, p)
       IN IF ~r.ok THEN Fail
          ELSE ParseList(s, r.p, Append(acc, r.v), canon /\ r.canon, dup \/ r.dup)

ParseDict(s, p, kv, canon, dup) ==
  IF p > Len(s) THEN Fail
  ELSE IF s[p] = cE THEN Good([t |-> "d", kv |-> kv], p + 1, canon, dup)
  ELSE LET k == ParseStr(s, p)
       IN IF ~k.ok THEN Fail
          ELSE LET r == ParseVal(s, k.p)
               IN IF ~r.ok THEN Fail
                  ELSE LET again == HasKey(kv, k.v.b)
                           sorted == IF kv = <<>> THEN TRUE
                                     ELSE LexLess(kv[Len(kv)].k, k.v.b)
                       IN ParseDict(s, r.p, PutKV(kv, k.v.b, r.v),
                                    canon /\ k.canon /\ r.canon /\ sorted,
                                    dup \/ r.dup \/ again)

ParseVal(s, p) ==
  IF p > Len(s) THEN Fail
  ELSE CASE s[p] = cI -> ParseInt(s, p)
         [] s[p] = cL -> ParseList(s, p + 1, <<>>, TRUE, FALSE)
         [] s[p] = cD -> ParseDict(s, p + 1, <<>>, TRUE, FALSE)
         [] OTHER -> ParseStr(s, p)

(* What reading a whole text must, may or must not give. *)
Parse(s) == ParseVal(s, 1)
Canonical(s) == LET r == Parse(s) IN r.ok /\ r.canon /\ r.p = Len(s) + 1

(***************************************************************************)
(* Acceptance of the behaviour of an implementation                        *)
(***************************************************************************)
DecodeOK(s, out) ==
  LET r == Parse(s)
  IN IF ~r.ok THEN ~out.ok
     ELSE IF r.canon /\ r.p = Len(s) + 1 THEN out.ok /\ out.v = r.v
     ELSE out.ok => r.dup \/ out.v = r.v

EncodeOK(v, out) == IF Encodable(v) THEN out.ok /\ out.b = Enc(Norm(v)) ELSE ~out.ok

(* Typed lookups *)
Getter == [string |-> "s", int |-> "i", uint |-> "i", dict |-> "d", list |-> "l"]
GetOK(v, key, getter, out) ==
  LET n == Norm(v)
      has == HasKey(n.kv, key)
      val == Lookup(n.kv, key)
  IN IF ~has THEN ~out.ok
     ELSE IF val.t # Getter[getter] THEN ~out.ok
     ELSE IF getter = "uint" /\ val.neg THEN ~out.ok
     ELSE out.ok /\ out.v = val
=============================================================================
