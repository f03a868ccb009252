------------------------------- MODULE JHist -------------------------------
(* Recorded histories of a storage object (C08): after each event, cand is the
   set of the states of the specification that explain all that was observed. *)
EXTENDS Storage, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, cand
vars == <<l, k, cand>>

Tor(s) == [files |-> s.files, plen |-> s.plen, content |-> s.content]
(* an index too large for the numbers of TLC is out of range *)
Index(e) == IF "hi" \in DOMAIN e /\ e.hi # 0 THEN 0 - 1 ELSE e.i
Outcomes(s, st, e) ==
  CASE e.e = "write" -> DoWrite(Tor(s), st, Index(e), e.data)
    [] e.e = "read" -> DoRead(Tor(s), st, Index(e), e.cap, e.fill)
    [] e.e = "move" -> DoMove(st, e.from, e.to)
    [] e.e = "close" -> DoClose(st, e.path)
    [] e.e = "closeall" -> DoCloseAll(st)
    [] e.e = "ocat" -> DoPrepare(st, e.path, e.len)
    [] e.e = "ocatall" -> DoPrepareAll(Tor(s), st)
    [] e.e = "put" -> {<<[ok |-> TRUE], Put(st, e.path, e.b)>>}
    [] e.e = "del" -> {<<[ok |-> TRUE], Del(st, e.path)>>}
Seen(e) == {<<e.disk[i].name, e.disk[i].b>> : i \in 1..Len(e.disk)}
Explains(e, r) == /\ r[1].ok = e.ok
                  /\ "n" \in DOMAIN r[1] => r[1].n = e.n
                  /\ "buf" \in DOMAIN r[1] => r[1].buf = e.buf
                  /\ Disk(r[2]) = Seen(e)
After(s, st, e) == {r[2] : r \in {x \in Outcomes(s, st, e) : Explains(e, x)}}

Init == /\ l \in 1..Len(Trace) /\ k = 0
        /\ cand = IF Trace[l].x = "ok" THEN {MkState(Trace[l].init, Len(Trace[l].init))} ELSE {}
Next == /\ k < Len(Trace[l].evs) /\ k' = k + 1 /\ l' = l
        /\ cand' = UNION {After(Trace[l], st, Trace[l].evs[k + 1]) : st \in cand}
Spec == Init /\ [][Next]_vars
Explained == cand # {}
=============================================================================
