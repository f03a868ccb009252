------------------------------- MODULE JConc -------------------------------
(* Recorded concurrent reads and writes of pieces (C11). Each segment of a piece
   is a register that goes from old to new once and for all. *)
EXTENDS Storage, Judge
Tor(s) == [files |-> s.files, plen |-> s.plen, content |-> <<>>]
NSegs(s, i) == Len(Segs(Lens(Tor(s)), P(s.plen), i))
Written(s, i) == {k \in 1..Len(s.evs) : s.evs[k].e = "write" /\ s.evs[k].i = i}
ReadsOf(s, i) == {k \in 1..Len(s.evs) : s.evs[k].e = "read" /\ s.evs[k].i = i}
ReadOK(s, r) ==
  /\ r.ok /\ Len(r.segs) = NSegs(s, r.i)
  /\ \A j \in 1..Len(r.segs) :
       /\ r.segs[j] \in {"old", "new"}
       /\ r.segs[j] = "new" => \E w \in Written(s, r.i) : s.evs[w].from < r.to
       /\ r.segs[j] = "old" => /\ ~\E w \in Written(s, r.i) : s.evs[w].to < r.from
                               /\ ~\E q \in ReadsOf(s, r.i) : s.evs[q].to < r.from /\ s.evs[q].segs[j] = "new"
EventOK(s, e) == CASE e.e = "read" -> ReadOK(s, e)
                   [] e.e = "write" -> e.ok
                   [] e.e = "bad" -> ~e.ok
                   [] OTHER -> TRUE
Judged == LET s == Trace[l]
          IN /\ s.x = "ok"
             /\ \A k \in 1..Len(s.evs) : EventOK(s, s.evs[k])
             /\ \A i \in 1..Len(s.final) : \A j \in 1..Len(s.final[i]) :
                  s.final[i][j] = IF Written(s, i - 1) = {} THEN "old" ELSE "new"
=============================================================================
