------------------------------- MODULE MHist -------------------------------
(* The operations of Storage in every order, on a small torrent: laws that the
   specification used as the judge of recorded histories must itself obey. *)
EXTENDS Storage, TLC
CONSTANT MaxIno
Tor == [files |-> <<[path |-> "a", len |-> 1], [path |-> "z", len |-> 0], [path |-> "b", len |-> 2]>>, plen |-> 2, content |-> <<1, 2, 3>>]
Start == MkState(<<[name |-> "a", b |-> <<9>>]>>, 1)
VARIABLES st, act
Names == {"a", "b", "m"}
Do == {[a |-> "write", i |-> i, d |-> d] : i \in {0 - 1, 0, 1, 2}, d \in {<<1, 2>>, <<3>>, <<9>>}}
      \cup {[a |-> "move", from |-> f, to |-> t] : f \in {"a", "m"}, t \in {"a", "b", "m"}}
      \cup {[a |-> "close", p |-> p] : p \in {"a", "b"}}
      \cup {[a |-> "closeall"], [a |-> "all"]} \cup {[a |-> "ocat", p |-> p, n |-> n] : p \in {"a"}, n \in {0, 1}}
      \cup {[a |-> "put", p |-> "b", b |-> <<8>>], [a |-> "del", p |-> "a"], [a |-> "del", p |-> "b"]}
Out(s, o) ==
  CASE o.a = "write" -> DoWrite(Tor, s, o.i, o.d)
    [] o.a = "move" -> DoMove(s, o.from, o.to)
    [] o.a = "close" -> DoClose(s, o.p)
    [] o.a = "closeall" -> DoCloseAll(s)
    [] o.a = "all" -> DoPrepareAll(Tor, s)
    [] o.a = "ocat" -> DoPrepare(s, o.p, o.n)
    [] o.a = "put" -> {<<[ok |-> TRUE], Put(s, o.p, o.b)>>}
    [] o.a = "del" -> {<<[ok |-> TRUE], Del(s, o.p)>>}
Init == st = Start /\ act = [o |-> [a |-> "none"], ok |-> TRUE, before |-> Start]
Next == \E o \in Do : \E r \in Out(st, o) :
          /\ Cardinality(DOMAIN r[2].ino) <= MaxIno
          /\ st' = r[2] /\ act' = [o |-> o, ok |-> r[1].ok, before |-> st]
Spec == Init /\ [][Next]_<<st, act>>
V == st

OneInode == \A p, q \in st.names : p[1] = q[1] => p = q
OneHandle == \A g, h \in st.hs : g[1] = h[1] => g = h
Reads == {[i |-> i, r |-> r[1]] : i \in {0, 1}, r \in UNION {DoRead(Tor, st, j, 3, 7) : j \in {0, 1}}}
(* A stored piece reads back, and only its own bytes changed. *)
WriteLaws ==
  act.o.a = "write" =>
    /\ act.ok =>
         LET good == <<[ok |-> TRUE, n |-> Len(act.o.d), buf |-> act.o.d \o [x \in 1..(3 - Len(act.o.d)) |-> 7]], st>>
         IN DoRead(Tor, st, act.o.i, 3, 7) = {good} \cup (IF EdgesOpen(Tor, st, act.o.i) THEN {} ELSE Bad(st))
    /\ act.ok => act.o.i \in {0, 1} /\ act.o.d = Piece(Tor, act.o.i)
    /\ act.o.i \notin {0, 1} => st = act.before
    /\ act.o.i \in {0, 1} => (act.o.d # Piece(Tor, act.o.i) => st = act.before)
    /\ st.names = act.before.names /\ {<<h[1], h[2]>> : h \in st.hs} = {<<h[1], h[2]>> : h \in act.before.hs}
PrepareLaws ==
  act.o.a = "all" => /\ \A k \in 1..3 : Has(st, Tor.files[k].path) /\ Len(st.ino[InodeOf(st, Tor.files[k].path)]) = Tor.files[k].len
                     /\ DoPrepareAll(Tor, st) = {<<[ok |-> TRUE], st>>}
                     /\ Disk(st) = AfterPrepare(Tor, Disk(act.before))
MoveLaws == act.o.a \in {"move", "close", "closeall"} => st.ino = act.before.ino
=============================================================================
