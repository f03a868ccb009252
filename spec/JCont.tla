------------------------------- MODULE JCont -------------------------------
(* Recorded histories of the containers (C30). *)
EXTENDS Containers, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, cand
Start(s) == CASE s.op = "list" -> {[i \in 1..s.n |-> <<>>]}
              [] s.op = "set" -> {{}}
              [] OTHER -> {<<>>}
Events(s) == IF s.op \in {"list", "set"} THEN Len(s.evs) ELSE 1
ListAfter(st, e) == CASE e.e \in {"data", "node"} -> PushFront(st, e.l, e.node)
                      [] e.e = "remove" -> Drop(st, e.l, e.node)
                      [] e.e = "clear" -> Emptied(st, e.l)
SetAfter(st, e, id) == CASE e.e = "add" -> AddMember(st, e.key, id)
                         [] e.e = "remove" -> RemoveMember(st, e.key)
                         [] e.e = "has" -> <<HasMember(st, e.key), st>>
After(s, st, i) ==
  CASE s.op = "list" ->
         LET n == ListAfter(st, s.evs[i])
             ok == s.evs[i].fw = n /\ s.evs[i].bw = [j \in 1..Len(n) |-> Reversed(n[j])]
         IN IF ok THEN {n} ELSE {}
    [] s.op = "set" ->
         LET e == s.evs[i]
             r == SetAfter(st, e, i)
             ok == /\ e.ok = r[1] /\ e.size = Cardinality(r[2]) /\ Len(e.items) = e.size
                   /\ {<<e.items[j].key, e.items[j].id>> : j \in 1..Len(e.items)} = r[2]
         IN IF ok THEN {r[2]} ELSE {}
    [] s.op = "segment" -> IF SegmentsOK(s.data, s.size, s.segs) /\ s.hashes = 20 * Len(s.segs) THEN {<<>>} ELSE {}
    [] s.op = "swap" -> IF SwapOK(s.data, s.i, s.res) THEN {<<>>} ELSE {}
Init == /\ l \in 1..Len(Trace) /\ k = 0
        /\ cand = IF Trace[l].x = "ok" THEN Start(Trace[l]) ELSE {}
Next == /\ k < Events(Trace[l]) /\ k' = k + 1 /\ l' = l
        /\ cand' = UNION {After(Trace[l], st, k + 1) : st \in cand}
Spec == Init /\ [][Next]_<<l, k, cand>>
Explained == cand # {}
=============================================================================
