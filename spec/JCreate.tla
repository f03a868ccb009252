------------------------------ MODULE JCreate ------------------------------
(* Created metainfo (C07). The record says which slices of the content each
   hash of the created torrent is the hash of, and what the created torrent,
   and the one loaded from its encoding, say of themselves. *)
EXTENDS Integers, Sequences, Judge
Paths(e) == [i \in 1..Len(e.files) |-> e.files[i].path]
Sizes(e) == [i \in 1..Len(e.files) |-> IF "n" \in DOMAIN e.files[i] THEN e.files[i].n ELSE Len(e.files[i].b)]
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Least(a, b) == IF a < b THEN a ELSE b

Good(e) ==
  LET o == e.out
      total == SumTo(Sizes(e), Len(e.files))
      n == (total + e.plen - 1) \div e.plen
  IN /\ o.ok
     /\ Len(o.spans) = n
     /\ \A i \in 1..n : \E k \in 1..Len(o.spans[i]) :
          o.spans[i][k] = << (i - 1) * e.plen, Least(i * e.plen, total) >>
     /\ o.created.length = total /\ o.created.np = n /\ o.created.plen = e.plen /\ o.created.name = e.name
     /\ o.created.last = total - (n - 1) * e.plen
     /\ Len(o.created.files) = Len(e.files)
     /\ \A i \in 1..Len(e.files) :
          /\ o.created.files[i].len = Sizes(e)[i]
          /\ o.created.files[i].tor = e.files[i].tor
          /\ o.created.files[i].local = e.files[i].local
     /\ o.loaded = o.created
     /\ o.held = [i \in 1..n |-> i - 1] /\ o.complete
Accept(e) ==
  /\ e.x = "ok"
  /\ IF e.plen < 1 \/ e.missing THEN ~e.out.ok ELSE Good(e)
Judged == Accept(Trace[l])
=============================================================================
