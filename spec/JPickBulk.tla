------------------------------ MODULE JPickBulk ------------------------------
(* Many peers that announce pieces and then choose until nothing is left (C20):
   since none leaves, every piece lacked that someone announced is assigned
   exactly once, to one who announced it. *)
EXTENDS Picker, Judge
Set(s) == {s[i] : i \in DOMAIN s}
Judged ==
  LET r == Trace[l]
      P == DOMAIN r.bulkann
  IN /\ r.x = "ok"
     /\ \A p \in P : /\ Set(r.bulkgot[p]) \subseteq Set(r.bulkann[p]) \ Set(r.have)
                     /\ Cardinality(Set(r.bulkgot[p])) = Len(r.bulkgot[p])
     /\ \A p, q \in P : p # q => Set(r.bulkgot[p]) \cap Set(r.bulkgot[q]) = {}
     /\ UNION {Set(r.bulkgot[p]) : p \in P} = UNION {Set(r.bulkann[p]) : p \in P} \ Set(r.have)
=============================================================================
