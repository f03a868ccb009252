------------------------------ MODULE MBencode ------------------------------
(* Exhaustive check of the definitions of Bencode on all texts over a small
   alphabet up to MaxLen bytes, and on all values of a small universe. *)
EXTENDS Bencode, TLC
CONSTANT MaxLen, Alphabet

VARIABLES s, v
Vars == <<s, v>>

Int(n, neg) == [t |-> "i", neg |-> neg, d |-> NatDigits(n)]
Str(b) == [t |-> "s", b |-> b]
Leaves == {Int(0, FALSE), Int(7, FALSE), Int(12, TRUE), Str(<<48>>), Str(<<101, 58>>),
           [t |-> "i", neg |-> TRUE, d |-> MinInt64Abs],
           [t |-> "l", v |-> <<>>], [t |-> "d", kv |-> <<>>]}
Keys == {<<97>>, <<97, 98>>, <<200>>}
Next1(vs) == {[t |-> "l", v |-> <<a, b>>] : a \in vs, b \in vs}
        \cup {[t |-> "l", v |-> <<a>>] : a \in vs}
        \cup {[t |-> "d", kv |-> <<[k |-> <<97>>, v |-> a], [k |-> <<97, 98>>, v |-> b]>>] : a \in vs, b \in vs}
        \cup {[t |-> "d", kv |-> <<[k |-> <<200>>, v |-> a]>>] : a \in vs}
Vals == Leaves \cup Next1(Leaves)
Vals2 == Vals \cup {[t |-> "d", kv |-> <<[k |-> <<97>>, v |-> a]>>] : a \in Vals}
              \cup {[t |-> "l", v |-> <<a>>] : a \in Vals}

NoVal == [t |-> "none"]
Init == \/ s = <<>> /\ v = NoVal
        \/ s = <<>> /\ v \in Vals2
Next == v = NoVal /\ Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c) /\ v' = v
Spec == Init /\ [][Next]_Vars

(* A text is canonical exactly if it is the encoding of what it denotes; an
   empty string has a canonical text too. *)
TextOK == v = NoVal =>
  LET r == Parse(s)
  IN r.ok => /\ r.p <= Len(s) + 1
             /\ r.canon <=> Enc(r.v) = SubSeq(s, 1, r.p - 1)
             /\ r.v = Norm(r.v)
             /\ \A i \in 1..(r.p - 2) : ~Parse(SubSeq(s, 1, i)).ok    \* no proper prefix is a text
ValueOK == v # NoVal =>
  LET e == Enc(v) r == Parse(e)
  IN /\ Encodable(v) /\ r.ok /\ r.canon /\ r.p = Len(e) + 1 /\ r.v = v /\ Norm(v) = v
     /\ \A w \in Leaves : w # v => Enc(w) # e
(* Vacuity guards: reached by the enumeration. *)
SomeCanon == ~(v = NoVal /\ Len(s) > 3 /\ Canonical(s))
=============================================================================
