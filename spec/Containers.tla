----------------------------- MODULE Containers -----------------------------
(* Linked lists as sequences of nodes, keyed sets as sets of members, cutting
   of data into segments, removal by swapping. *)
EXTENDS Integers, Sequences, FiniteSets

Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* st: sequence of lists *)
PushFront(st, l, n) == [st EXCEPT ![l] = <<n>> \o @]
Drop(st, l, n) == [st EXCEPT ![l] = Without(@, n)]
Emptied(st, l) == [st EXCEPT ![l] = <<>>]

(* set states: sets of <<key, id>> *)
HasMember(st, key) == \E m \in st : m[1] = key
AddMember(st, key, id) == IF HasMember(st, key) THEN <<FALSE, st>> ELSE <<TRUE, st \cup {<<key, id>>}>>
RemoveMember(st, key) == <<HasMember(st, key), {m \in st : m[1] # key}>>

(* the data in order, all of size but the last, none empty *)
SegmentsOK(data, size, segs) ==
  LET n == Len(data)
      end(i) == IF i * size < n THEN i * size ELSE n
  IN /\ Len(segs) = (n + size - 1) \div size
     /\ \A i \in 1..Len(segs) : segs[i] = SubSeq(data, (i - 1) * size + 1, end(i))

CountIn(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
SwapOK(data, i, res) ==  \* i from 0
  /\ Len(res) = Len(data) - 1
  /\ \A v \in {data[j] : j \in 1..Len(data)} : CountIn(res, v) = CountIn(data, v) - (IF data[i + 1] = v THEN 1 ELSE 0)
=============================================================================
