------------------------------ MODULE MStorage ------------------------------
(* The client's storage at the grain of single bytes: preparing the files,
   verifying them, storing verified pieces, and dying at any moment. TLC checks
   that what was stored or right on disk survives any number of deaths and
   restarts, and that what is held is exactly what verifies. Every disk that a
   death can leave is printed, to be given to the real code. *)
EXTENDS Storage, TLC, Json, IOUtils

CONSTANTS L1, L2, Plen, Wrongs, Deaths
Tor == [files |-> <<[path |-> "f1", len |-> L1], [path |-> "d/f2", len |-> L2]>>, plen |-> Plen,
        content |-> [i \in 1..(L1 + L2) |-> i]]
Path(k) == Tor.files[k].path
Right(k) == IF k = 1 THEN SubSeq(Tor.content, 1, L1) ELSE SubSeq(Tor.content, L1 + 1, L1 + L2)
Absent == <<0 - 1>>
(* contents: each byte right or wrong, up to one byte too many *)
Contents0(k) == {Absent} \cup UNION {[1..n -> {0, 1}] : n \in 0..(Tor.files[k].len + 1)}
Fill(k, p) == IF p = Absent THEN Absent
              ELSE [i \in 1..Len(p) |-> IF p[i] = 1 /\ i <= Tor.files[k].len THEN Right(k)[i] ELSE Wrongs]

VARIABLES disk, pc, k, held, w, done, deaths, first
vars == <<disk, pc, k, held, w, done, deaths, first>>
DiskSet(d) == {<<Path(j), d[j]>> : j \in {x \in 1..2 : d[x] # Absent}}

Init == /\ \E a \in Contents0(1), b \in Contents0(2) : disk = <<Fill(1, a), Fill(2, b)>>
        /\ pc = "off" /\ k = 0 /\ held = {} /\ w = <<0, 0>> /\ done = {} /\ deaths = 0 /\ first = disk

Start == pc = "off" /\ pc' = "prep" /\ k' = 1 /\ held' = {} /\ UNCHANGED <<disk, w, done, deaths, first>>
PrepFile ==
  /\ pc = "prep" /\ k <= 2
  /\ LET b == disk[k]
         n == Tor.files[k].len
     IN IF b = Absent THEN disk' = [disk EXCEPT ![k] = <<>>] /\ k' = k
        ELSE IF Len(b) > n THEN disk' = [disk EXCEPT ![k] = SubSeq(b, 1, n)] /\ k' = k
        ELSE IF Len(b) < n THEN disk' = [disk EXCEPT ![k] = Append(b, 0)] /\ k' = k
        ELSE disk' = disk /\ k' = k + 1
  /\ UNCHANGED <<pc, held, w, done, deaths, first>>
Verify == /\ pc = "prep" /\ k = 3 /\ pc' = "up" /\ held' = HeldOn(Tor, DiskSet(disk))
          /\ UNCHANGED <<disk, k, w, done, deaths, first>>
Begin == /\ pc = "up" /\ \E i \in 0..(NPieces(Tor) - 1) : i \notin held /\ w' = <<i, PieceLo(Tor, i)>>
         /\ pc' = "write" /\ UNCHANGED <<disk, k, held, done, deaths, first>>
WriteByte ==
  /\ pc = "write" /\ w[2] < PieceHi(Tor, w[1])
  /\ LET pos == w[2]
         f == IF pos < L1 THEN 1 ELSE 2
         o == IF pos < L1 THEN pos ELSE pos - L1
     IN disk' = [disk EXCEPT ![f] = Overlay(disk[f], o, <<Tor.content[pos + 1]>>)]
  /\ w' = <<w[1], w[2] + 1>> /\ UNCHANGED <<pc, k, held, done, deaths, first>>
Finish == /\ pc = "write" /\ w[2] = PieceHi(Tor, w[1])
          /\ pc' = "up" /\ held' = held \cup {w[1]} /\ done' = done \cup {w[1]} /\ UNCHANGED <<disk, k, w, deaths, first>>
Die == /\ pc # "off" /\ deaths < Deaths /\ deaths' = deaths + 1 /\ pc' = "off" /\ UNCHANGED <<disk, k, held, w, done, first>>
Next == Start \/ PrepFile \/ Verify \/ Begin \/ WriteByte \/ Finish \/ Die
Spec == Init /\ [][Next]_vars

After(d) == AfterPrepare(Tor, DiskSet(d))
HeldExact == pc \in {"up", "write"} =>
               held \ (IF pc = "write" THEN {w[1]} ELSE {}) = HeldOn(Tor, DiskSet(disk)) \ (IF pc = "write" THEN {w[1]} ELSE {})
NothingLost == /\ done \subseteq HeldOn(Tor, After(disk))
               /\ HeldOn(Tor, After(first)) \subseteq HeldOn(Tor, After(disk))
PrepareIsStable == pc = "prep" => After(disk) = AfterPrepare(Tor, After(disk))
PrepareKeeps == (pc = "prep" /\ deaths = 0) => After(disk) = After(first)
Emit == (pc = "off" /\ IOEnv.OUT # "") => PrintT("GEN " \o ToJson([init |-> [j \in 1..2 |-> [name |-> Path(j), b |-> disk[j]]]]))
=============================================================================
