------------------------------- MODULE Picker -------------------------------
(* Which piece to ask which peer for. Pieces are 0..n-1. The state:
   have  the pieces the client holds,
   ann   what each connected peer has announced (a function to sets of pieces),
   held  what is assigned to each peer. *)
EXTENDS Integers, Sequences, FiniteSets

PickInit(n, have, peers) ==
  [n |-> n, have |-> have, ann |-> [p \in peers |-> {}], held |-> [p \in peers |-> {}]]

Taken(st) == UNION {st.held[p] : p \in DOMAIN st.held}
Free(st, p) == (st.ann[p] \ st.have) \ Taken(st)

(* 63 and more count as equal. *)
Most == 63
Avail(st, i) == LET c == Cardinality({p \in DOMAIN st.ann : i \in st.ann[p]})
                IN IF c > Most THEN Most ELSE c
Rarest(st, S) == {i \in S : \A j \in S : Avail(st, i) <= Avail(st, j)}

Announce(st, p, S) == [st EXCEPT !.ann[p] = @ \cup S]
Leave(st, p) == [st EXCEPT !.ann[p] = {}, !.held[p] = {}]
Got(st, i) == [st EXCEPT !.have = @ \cup {i}]
Assign(st, p, i) == [st EXCEPT !.held[p] = @ \cup {i}]

(* Assigning res (-1: none) to p is right; with the rarest first, if rare. *)
ChoiceOK(st, p, res, rare) ==
  LET F == Free(st, p)
  IN IF F = {} THEN res = -1
     ELSE res \in (IF rare THEN Rarest(st, F) ELSE F)

(* What must always hold. *)
Exclusive(st) == \A p, q \in DOMAIN st.held : p # q => st.held[p] \cap st.held[q] = {}
HeldAnnounced(st) == \A p \in DOMAIN st.held : st.held[p] \subseteq st.ann[p]
=============================================================================
