------------------------------- MODULE MCont -------------------------------
(* Doubly linked lists with head pointers, nodes moved between lists, against
   sequences: every sequence of operations on a few nodes. *)
EXTENDS Containers, TLC
CONSTANTS Nodes, Lists
Nil == 0
VARIABLES seq, head, next, prev
vars == <<seq, head, next, prev>>
Init == /\ seq = [l \in Lists |-> <<>>] /\ head = [l \in Lists |-> Nil]
        /\ next = [n \in Nodes |-> Nil] /\ prev = [n \in Nodes |-> Nil]
In(l) == {seq[l][i] : i \in 1..Len(seq[l])}
Push(l, n) ==
  /\ \A m \in Lists : n \notin In(m)
  /\ seq' = PushFront(seq, l, n)
  /\ head' = [head EXCEPT ![l] = n]
  /\ next' = [next EXCEPT ![n] = head[l]]
  /\ prev' = [x \in Nodes |-> IF x = n THEN Nil ELSE IF x = head[l] THEN n ELSE prev[x]]
Pull(l, n) ==
  /\ n \in In(l)
  /\ seq' = Drop(seq, l, n)
  /\ head' = [head EXCEPT ![l] = IF @ = n THEN next[n] ELSE @]
  /\ next' = [x \in Nodes |-> IF x = prev[n] THEN next[n] ELSE next[x]]
  /\ prev' = [x \in Nodes |-> IF x = next[n] THEN prev[n] ELSE prev[x]]
Next == \E l \in Lists, n \in Nodes : Push(l, n) \/ Pull(l, n)
Spec == Init /\ [][Next]_vars
RECURSIVE Fw(_, _), Bw(_, _)
Fw(n, d) == IF n = Nil \/ d = 0 THEN <<>> ELSE <<n>> \o Fw(next[n], d - 1)
Bw(n, d) == IF n = Nil \/ d = 0 THEN <<>> ELSE <<n>> \o Bw(prev[n], d - 1)
Walks == \A l \in Lists :
  /\ Fw(head[l], 9) = seq[l]
  /\ seq[l] # <<>> => Bw(seq[l][Len(seq[l])], 9) = Reversed(seq[l])
=============================================================================
