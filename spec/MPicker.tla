------------------------------- MODULE MPicker -------------------------------
(* A tracker of pieces as buckets by availability, the last of which takes
   everything from Cap on, against Picker; every sequence of calls. Fresh peers
   only: whoever leaves does not return. *)
EXTENDS Picker, Json, IOUtils, TLC
CONSTANTS Peers, N, MaxOps, Cap
VARIABLES st, bucket, gone, evs, res
vars == <<st, bucket, gone, evs, res>>
Pieces == 0..(N - 1)
Init == /\ \E h \in SUBSET Pieces : st = PickInit(N, h, Peers)
        /\ bucket = [k \in 0..Cap |-> IF k = 0 THEN Pieces ELSE {}]
        /\ gone = {} /\ evs = <<>> /\ res = "none"
Num(s, i) == Cardinality({p \in Peers : i \in s.ann[p]})
Min(a, b) == IF a < b THEN a ELSE b
Move(b, i, from, to) == [b EXCEPT ![from] = @ \ {i}, ![to] = @ \cup {i}]
(* moving one piece on a registration, as the code does *)
Reg(b, s, p, i) ==
  IF i \in s.ann[p] THEN b
  ELSE LET c == Num(s, i) IN IF c < Cap THEN Move([b EXCEPT ![c] = @ \ {i}], i, c, c + 1) ELSE b
RECURSIVE RegAll(_, _, _, _)
RegAll(b, s, p, S) == IF S = {} THEN b
                      ELSE LET i == CHOOSE x \in S : TRUE
                           IN RegAll(Reg(b, s, p, i), Announce(s, p, {i}), p, S \ {i})
RECURSIVE UnregAll(_, _, _, _)
UnregAll(b, s, p, S) == IF S = {} THEN b
                        ELSE LET i == CHOOSE x \in S : TRUE
                                 c == Num(s, i)
                             IN UnregAll(IF c <= Cap THEN Move(b, i, c, c - 1) ELSE b, s, p, S \ {i})
Ev(e, p, S) == [e |-> e, p |-> p, i |-> S]
DoReg == \E p \in Peers \ gone, S \in (SUBSET Pieces) \ {{}} :
  /\ st' = Announce(st, p, S) /\ bucket' = RegAll(bucket, st, p, S)
  /\ evs' = Append(evs, Ev(IF Cardinality(S) = 1 THEN "reg" ELSE "bf", p, S)) /\ gone' = gone /\ res' = "none"
DoLeave == \E p \in Peers :
  /\ st' = Leave(st, p) /\ bucket' = UnregAll(bucket, st, p, st.ann[p])
  /\ evs' = Append(evs, Ev("unreg", p, {})) /\ gone' = gone \cup {p} /\ res' = "none"
DoGot == \E i \in Pieces \ st.have : /\ st' = Got(st, i) /\ evs' = Append(evs, Ev("got", 0, {i}))
                                     /\ UNCHANGED <<bucket, gone>> /\ res' = "none"
First(S) == {i \in S : \E k \in 1..Cap : i \in bucket[k] /\ \A j \in 1..(k - 1) : bucket[j] \cap S = {}}
DoNext == \E p \in Peers \ gone :
  LET F == First(Free(st, p))
  IN /\ evs' = Append(evs, Ev("next", p, {})) /\ gone' = gone /\ bucket' = bucket
     /\ \/ F = {} /\ st' = st /\ res' = IF ChoiceOK(st, p, -1, TRUE) THEN "fine" ELSE "wrong"
        \/ \E i \in F : st' = Assign(st, p, i) /\ res' = IF ChoiceOK(st, p, i, TRUE) THEN "fine" ELSE "wrong"
Next == (MaxOps >= 1000 \/ Len(evs) < MaxOps) /\ (DoReg \/ DoLeave \/ DoGot \/ DoNext)
Spec == Init /\ [][Next]_vars
Right == /\ res # "wrong" /\ Exclusive(st) /\ HeldAnnounced(st)
         /\ \A i \in Pieces : \A k \in 0..Cap : (i \in bucket[k]) = (k = Min(Num(st, i), Cap))
         /\ \A p \in gone : st.held[p] = {} /\ st.ann[p] = {}
Script == [op |-> "seq", n |-> N, have |-> st.have, peers |-> Cardinality(Peers), evs |-> evs]
Gots == UNION {evs[k].i : k \in {j \in 1..Len(evs) : evs[j].e = "got"}}
Emit == IOEnv.OUT = "" \/ Len(evs) < MaxOps
        \/ PrintT("GEN " \o ToJson([Script EXCEPT !.have = st.have \ Gots]))
(* without the history, for deeper models *)
NoHist == <<st, bucket, gone, res>>
=============================================================================
