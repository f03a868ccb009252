------------------------------- MODULE Storage -------------------------------
(* Storage of a torrent's payload in files. A file system of names and inodes
   (so that what happens to renamed, removed and replaced files is right), the
   handles that the storage object has opened, and the effect of each of its
   operations and of other programs changing files.

   A state st is a record
     names  : set of <<name, inode>>
     ino    : function from inode numbers to contents (sequences of bytes)
     hs     : set of <<path, inode, "open" | "closed" | "maybe">>
   and a torrent tor a record
     files  : sequence of [path, len]
     plen, content
   Operators Do... give the set of the pairs <<result, next state>> allowed. *)
EXTENDS Integers, Sequences, FiniteSets, Layout

Small(p) == p[1] * Base + p[2]

Bytes0(n) == [i \in 1..n |-> 0]
Resize(b, n) == IF Len(b) >= n THEN SubSeq(b, 1, n) ELSE b \o Bytes0(n - Len(b))
(* Overwrite b at offset o with d (a hole before it reads as zeros). *)
Overlay(b, o, d) ==
  LET n == IF Len(b) > o + Len(d) THEN Len(b) ELSE o + Len(d)
  IN [i \in 1..n |-> IF i > o /\ i <= o + Len(d) THEN d[i - o] ELSE IF i <= Len(b) THEN b[i] ELSE 0]

(***************************************************************************)
(* The torrent                                                             *)
(***************************************************************************)
Lens(tor) == [k \in 1..Len(tor.files) |-> P(tor.files[k].len)]
NPieces(tor) == (Len(tor.content) + tor.plen - 1) \div tor.plen
PieceLo(tor, i) == i * tor.plen
PieceHi(tor, i) == IF (i + 1) * tor.plen < Len(tor.content) THEN (i + 1) * tor.plen ELSE Len(tor.content)
Piece(tor, i) == SubSeq(tor.content, PieceLo(tor, i) + 1, PieceHi(tor, i))
(* segments as [path, seek, n] *)
PathSegs(tor, i) ==
  LET s == Segs(Lens(tor), P(tor.plen), i)
  IN [j \in 1..Len(s) |-> [path |-> tor.files[s[j].f].path, seek |-> Small(s[j].seek), n |-> Small(s[j].n)]]

(***************************************************************************)
(* The file system                                                         *)
(***************************************************************************)
Has(st, name) == \E p \in st.names : p[1] = name
InodeOf(st, name) == (CHOOSE p \in st.names : p[1] = name)[2]
NewIno(st) == Cardinality(DOMAIN st.ino) + 1
Named(st, name, i) == {p \in st.names : p[1] # name} \cup {<<name, i>>}
SetIno(st, i, b) == [j \in DOMAIN st.ino \cup {i} |-> IF j = i THEN b ELSE st.ino[j]]
Disk(st) == {<<p[1], st.ino[p[2]]>> : p \in st.names}

Opened(st, path) == \E h \in st.hs : h[1] = path
Handle(st, path) == CHOOSE h \in st.hs : h[1] = path
WithHandle(st, path, i, s) == {h \in st.hs : h[1] # path} \cup {<<path, i, s>>}

MkState(disk, n) == [names |-> {<<disk[k].name, k>> : k \in 1..n}, ino |-> [k \in 1..n |-> disk[k].b], hs |-> {}]

(***************************************************************************)
(* Operations                                                              *)
(***************************************************************************)
Bad(st) == {<<[ok |-> FALSE], st>>}

(* Whether the handle of each segment is certainly, or possibly, usable. *)
Usable(st, segs) == \A j \in 1..Len(segs) : Opened(st, segs[j].path) /\ Handle(st, segs[j].path)[3] = "open"
Hopeless(st, segs) == \E j \in 1..Len(segs) : ~Opened(st, segs[j].path) \/ Handle(st, segs[j].path)[3] = "closed"
Contents(st, path) == st.ino[Handle(st, path)[2]]

RECURSIVE ReadSegs(_, _, _)
ReadSegs(st, segs, j) ==
  IF j > Len(segs) THEN <<>>
  ELSE SubSeq(Contents(st, segs[j].path), segs[j].seek + 1, segs[j].seek + segs[j].n) \o ReadSegs(st, segs, j + 1)
(* What a success tells about the handles used. *)
Sure(st, segs) == [st EXCEPT !.hs = {<<h[1], h[2], IF \E j \in 1..Len(segs) : segs[j].path = h[1] THEN "open" ELSE h[3]>> : h \in @}]
LongEnough(st, segs) == \A j \in 1..Len(segs) : Len(Contents(st, segs[j].path)) >= segs[j].seek + segs[j].n

(* A file without bytes that lies where the piece does may count as one of the piece's files, or not. *)
RECURSIVE Before(_, _)
Before(tor, f) == IF f = 1 THEN 0 ELSE Before(tor, f - 1) + tor.files[f - 1].len
EdgesOpen(tor, st, i) ==
  \A f \in 1..Len(tor.files) :
    (tor.files[f].len = 0 /\ PieceLo(tor, i) <= Before(tor, f) /\ Before(tor, f) <= PieceHi(tor, i)) =>
      Opened(st, tor.files[f].path) /\ Handle(st, tor.files[f].path)[3] = "open"

DoRead(tor, st, i, cap, fill) ==
  IF i < 0 \/ i >= NPieces(tor) THEN Bad(st)
  ELSE LET segs == PathSegs(tor, i)
           n == PieceHi(tor, i) - PieceLo(tor, i)
           good == [ok |-> TRUE, n |-> n, buf |-> ReadSegs(st, segs, 1) \o [k \in 1..(cap - n) |-> fill]]
       IN IF Hopeless(st, segs) THEN Bad(st)
          ELSE IF ~LongEnough(st, segs) THEN Bad(st)
          ELSE IF Usable(st, segs) /\ EdgesOpen(tor, st, i) THEN {<<good, st>>}
          ELSE {<<good, Sure(st, segs)>>} \cup Bad(st)

(* Write the data of the segments whose numbers are in js. *)
RECURSIVE WriteSegs(_, _, _, _, _, _)
WriteSegs(st, segs, data, js, j, off) ==
  IF j > Len(segs) THEN st
  ELSE LET s == segs[j]
           i == Handle(st, s.path)[2]
           st2 == IF j \in js
                  THEN [st EXCEPT !.ino = SetIno(st, i, Overlay(st.ino[i], s.seek, SubSeq(data, off + 1, off + s.n)))]
                  ELSE st
       IN WriteSegs(st2, segs, data, js, j + 1, off + s.n)
CanWrite(st, segs) == {j \in 1..Len(segs) : Opened(st, segs[j].path) /\ Handle(st, segs[j].path)[3] # "closed"}

DoWrite(tor, st, i, data) ==
  IF i < 0 \/ i >= NPieces(tor) THEN Bad(st)
  ELSE IF data # Piece(tor, i) THEN Bad(st)
  ELSE LET segs == PathSegs(tor, i)
           good == <<[ok |-> TRUE, n |-> Len(data)], Sure(WriteSegs(st, segs, data, 1..Len(segs), 1, 0), segs)>>
           \* when a file is not open, files that are may have got their part
           partial == {<<[ok |-> FALSE], WriteSegs(st, segs, data, js, 1, 0)>> : js \in SUBSET CanWrite(st, segs)}
       IN IF Usable(st, segs) /\ EdgesOpen(tor, st, i) THEN {good}
          ELSE IF Hopeless(st, segs) THEN partial
          ELSE {good} \cup partial

DoMove(st, from, to) ==
  IF ~Opened(st, from) THEN Bad(st)
  ELSE IF ~Has(st, from) THEN Bad(st)
  ELSE IF from = to THEN {<<[ok |-> TRUE], st>>}
  ELSE {<<[ok |-> TRUE],
          [st EXCEPT !.names = {p \in st.names : p[1] # from /\ p[1] # to} \cup {<<to, InodeOf(st, from)>>}]>>}

DoClose(st, path) ==
  IF ~Opened(st, path) THEN Bad(st)
  ELSE LET h == Handle(st, path)
           st2 == [st EXCEPT !.hs = WithHandle(st, path, h[2], "closed")]
       IN CASE h[3] = "open" -> {<<[ok |-> TRUE], st2>>}
            [] OTHER -> {<<[ok |-> TRUE], st2>>, <<[ok |-> FALSE], st2>>}

(* If a file was closed before, closing all may stop there. *)
DoCloseAll(st) ==
  LET all(s) == [st EXCEPT !.hs = {<<h[1], h[2], IF h[3] = "closed" THEN "closed" ELSE s>> : h \in st.hs}]
  IN IF \A h \in st.hs : h[3] = "open" THEN {<<[ok |-> TRUE], all("closed")>>}
     ELSE {<<[ok |-> TRUE], all("closed")>>, <<[ok |-> FALSE], all("maybe")>>}

Prepared(st, path, len) ==
  LET i == IF Has(st, path) THEN InodeOf(st, path) ELSE NewIno(st)
      b == IF Has(st, path) THEN st.ino[i] ELSE <<>>
  IN [names |-> Named(st, path, i), ino |-> SetIno(st, i, Resize(b, len)), hs |-> WithHandle(st, path, i, "open")]
DoPrepare(st, path, len) == {<<[ok |-> TRUE], Prepared(st, path, len)>>}
RECURSIVE PrepareFrom(_, _, _)
PrepareFrom(tor, st, k) == IF k > Len(tor.files) THEN st
                           ELSE PrepareFrom(tor, Prepared(st, tor.files[k].path, tor.files[k].len), k + 1)
DoPrepareAll(tor, st) == {<<[ok |-> TRUE], PrepareFrom(tor, st, 1)>>}

(* Other programs *)
Put(st, path, b) == IF Has(st, path) THEN [st EXCEPT !.ino = SetIno(st, InodeOf(st, path), b)]
                    ELSE [st EXCEPT !.names = Named(st, path, NewIno(st)), !.ino = SetIno(st, NewIno(st), b)]
Del(st, path) == [st EXCEPT !.names = {p \in @ : p[1] # path}]

(***************************************************************************)
(* Startup: the pieces whose bytes on disk are theirs                      *)
(***************************************************************************)
OnDisk(tor, disk, i) == \* disk: a set of <<name, bytes>>, every file having its length
  LET segs == PathSegs(tor, i)
      of(path) == (CHOOSE d \in disk : d[1] = path)[2]
      RECURSIVE go(_)
      go(j) == IF j > Len(segs) THEN <<>>
               ELSE SubSeq(of(segs[j].path), segs[j].seek + 1, segs[j].seek + segs[j].n) \o go(j + 1)
  IN go(1)
HeldOn(tor, disk) == {i \in 0..(NPieces(tor) - 1) : OnDisk(tor, disk, i) = Piece(tor, i)}
AfterPrepare(tor, disk) == \* what a disk looks like after preparing the files
  LET paths == {tor.files[k].path : k \in 1..Len(tor.files)}
      old(p) == IF \E d \in disk : d[1] = p THEN (CHOOSE d \in disk : d[1] = p)[2] ELSE <<>>
  IN {d \in disk : d[1] \notin paths}
     \cup {<<tor.files[k].path, Resize(old(tor.files[k].path), tor.files[k].len)>> : k \in 1..Len(tor.files)}
=============================================================================
