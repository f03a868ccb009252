------------------------------- MODULE JPicker -------------------------------
(* Recorded calls of the piece tracker, by one or more threads, are explained
   by an order that respects their times (C20, and with rare C21). *)
EXTENDS Picker, Json, IOUtils, TLC
CONSTANT Rare
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, cand
Set(s) == {s[i] : i \in DOMAIN s}
Threads(r) == DOMAIN r.th
(* the states after e, or none *)
After(st, e) ==
  CASE e.e \in {"reg", "bf"} -> {Announce(st, e.p, Set(e.i))}
    [] e.e = "unreg" -> {Leave(st, e.p)}
    [] e.e = "got" -> {Got(st, e.i[1])}
    [] e.e = "next" -> IF ~ChoiceOK(st, e.p, e.res, Rare) THEN {}
                       ELSE IF e.res = -1 THEN {st} ELSE {Assign(st, e.p, e.res)}
Ready(r, c, t) == /\ c.at[t] < Len(r.th[t])
                  /\ \A u \in Threads(r) : c.at[u] < Len(r.th[u]) =>
                       ~(r.th[u][c.at[u] + 1].to < r.th[t][c.at[t] + 1].from)
Total(r) == Len(r.order)
Init == /\ l \in 1..Len(Trace) /\ k = 0
        /\ cand = IF Trace[l].x = "ok"
                  THEN {[at |-> [t \in Threads(Trace[l]) |-> 0],
                         st |-> PickInit(Trace[l].n, Set(Trace[l].have), 1..Trace[l].peers)]}
                  ELSE {}
Step(r, c) == UNION {{[at |-> [c.at EXCEPT ![t] = @ + 1], st |-> s] : s \in After(c.st, r.th[t][c.at[t] + 1])}
                     : t \in {u \in Threads(r) : Ready(r, c, u)}}
Next == /\ k < Total(Trace[l]) /\ k' = k + 1 /\ l' = l
        /\ cand' = UNION {Step(Trace[l], c) : c \in cand}
Spec == Init /\ [][Next]_<<l, k, cand>>
Explained == cand # {}
=============================================================================
