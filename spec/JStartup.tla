------------------------------ MODULE JStartup ------------------------------
(* Recorded startups (C10, and the remaining bytes of C28). *)
EXTENDS Storage, Judge
Tor(s) == [files |-> s.files, plen |-> s.plen, content |-> s.content]
SetOf(q) == {q[i] : i \in 1..Len(q)}
DiskOf(q) == {<<q[i].name, q[i].b>> : i \in 1..Len(q)}
Lacking(plen, total, n, held) == LET lack == (0..(n - 1)) \ held
                                 IN plen * Cardinality(lack) - (IF n - 1 \in lack THEN n * plen - total ELSE 0)
RECURSIVE SumLens(_, _)
SumLens(f, k) == IF k = 0 THEN 0 ELSE f[k].len + SumLens(f, k - 1)

Marks(s, held) ==
  LET total == SumLens(s.files, Len(s.files))
      n == (total + s.plen - 1) \div s.plen
  IN /\ SetOf(s.out.held) = held /\ Len(s.out.held) = Cardinality(held)
     /\ s.out.nbits = n /\ s.out.nset = Cardinality(held)
     /\ s.out.complete = (held = 0..(n - 1))
     /\ s.out.left # -1 => s.out.left = Lacking(s.plen, total, n, held)
     /\ ~s.out.altered
(* With a field exp the torrent says 2^exp - 1 for the piece length: its one
   piece ends where the payload does. *)
Accept(s) ==
  /\ s.x = "ok" /\ s.out.ok
  /\ IF s.big THEN Marks(s, SetOf(s.out.verified)) /\ -1 \notin SetOf(s.out.verified)
     ELSE /\ {d \in DiskOf(s.out.disk) : d[1] # ".torrent"} = AfterPrepare(Tor(s), DiskOf(s.init))
          /\ Marks(s, HeldOn(Tor(s), DiskOf(s.out.disk)))
Judged == Accept(Trace[l])
=============================================================================
