------------------------------- MODULE JBits -------------------------------
(* Recorded histories of bitfields (C12). *)
EXTENDS Bitfield, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, cand
Outcomes(st, e) ==
  CASE e.e = "new" -> {<<TRUE, NewBits(e.n)>>}
    [] e.e = "adopt" -> Adopt(st, e.b, e.n)
    [] e.e = "set" -> SetBit(st, e.i, e.v)
    [] e.e = "fill" -> FillBits(st)
    [] e.e = "nbits" -> Renumber(st, e.n)
After(st, e) == {r[2] : r \in {x \in Outcomes(st, e) : x[1] = e.ok /\ SeenOK(x[2], e.see)}}
Init == /\ l \in 1..Len(Trace) /\ k = 0
        /\ cand = IF Trace[l].x = "ok" THEN {NoBits} ELSE {}
Next == /\ k < Len(Trace[l].evs) /\ k' = k + 1 /\ l' = l
        /\ cand' = UNION {After(st, Trace[l].evs[k + 1]) : st \in cand}
Spec == Init /\ [][Next]_<<l, k, cand>>
Explained == cand # {}
=============================================================================
