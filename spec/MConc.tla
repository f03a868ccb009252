------------------------------- MODULE MConc -------------------------------
(* Goroutines reading and writing one piece that lies in two files, cell by
   cell, each file under its own readers-writer lock. What each read returns of
   one file is never mixed, and everybody gets done. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Readers, Writers, Cells
Files == {1, 2}
Procs == Readers \cup Writers
VARIABLES disk, at, got, rd, wr, doneAt, clock, begun
vars == <<disk, at, got, rd, wr, doneAt, clock, begun>>
(* at[p] = <<file, cell>>; cell 0: before taking the lock of the file; file 3: done *)
Init == /\ disk = [f \in Files |-> [c \in 1..Cells |-> "old"]]
        /\ at = [p \in Procs |-> <<1, 0>>]
        /\ got = [p \in Readers |-> [f \in Files |-> <<>>]]
        /\ rd = [f \in Files |-> {}] /\ wr = [f \in Files |-> {}]
        /\ doneAt = [p \in Procs |-> 0] /\ begun = [p \in Procs |-> 0] /\ clock = 1
Busy(p) == at[p][1] \in Files
Tick(p, f) == /\ clock' = clock + (IF at'[p][1] = 3 \/ (at[p] = <<1, 0>>) THEN 1 ELSE 0)
              /\ doneAt' = IF at'[p][1] = 3 THEN [doneAt EXCEPT ![p] = clock] ELSE doneAt
              /\ begun' = IF at[p] = <<1, 0>> THEN [begun EXCEPT ![p] = clock] ELSE begun
Lock(p) == /\ Busy(p) /\ at[p][2] = 0
           /\ LET f == at[p][1]
              IN /\ wr[f] = {} /\ (p \in Writers => rd[f] = {})
                 /\ IF p \in Writers THEN wr' = [wr EXCEPT ![f] = {p}] /\ rd' = rd
                    ELSE rd' = [rd EXCEPT ![f] = @ \cup {p}] /\ wr' = wr
                 /\ at' = [at EXCEPT ![p] = <<f, 1>>]
                 /\ Tick(p, f)
           /\ UNCHANGED <<disk, got>>
Cell(p) == /\ Busy(p) /\ at[p][2] \in 1..Cells
           /\ LET f == at[p][1]
                  c == at[p][2]
              IN /\ IF p \in Writers THEN disk' = [disk EXCEPT ![f][c] = "new"] /\ got' = got
                    ELSE got' = [got EXCEPT ![p][f] = Append(@, disk[f][c])] /\ disk' = disk
                 /\ at' = [at EXCEPT ![p] = <<f, c + 1>>]
           /\ UNCHANGED <<rd, wr, doneAt, clock, begun>>
Unlock(p) == /\ Busy(p) /\ at[p][2] = Cells + 1
             /\ LET f == at[p][1]
                IN /\ rd' = [rd EXCEPT ![f] = @ \ {p}] /\ wr' = [wr EXCEPT ![f] = @ \ {p}]
                   /\ at' = [at EXCEPT ![p] = <<f + 1, 0>>]
                   /\ Tick(p, f)
             /\ UNCHANGED <<disk, got>>
Next == \E p \in Procs : Lock(p) \/ Cell(p) \/ Unlock(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Lock(p) \/ Cell(p) \/ Unlock(p)) /\ SF_vars(Lock(p))

Unmixed == \A p \in Readers : \A f \in Files : \A i, j \in 1..Len(got[p][f]) : got[p][f][i] = got[p][f][j]
(* the rule used on recorded calls *)
Rule == \A p \in Readers : at[p][1] = 3 => \A f \in Files :
  /\ got[p][f][1] = "old" => ~\E w \in Writers : at[w][1] = 3 /\ doneAt[w] < begun[p]
  /\ got[p][f][1] = "old" => ~\E q \in Readers : at[q][1] = 3 /\ doneAt[q] < begun[p] /\ got[q][f][1] = "new"
  /\ got[p][f][1] = "new" => \E w \in Writers : begun[w] > 0 /\ begun[w] < doneAt[p]
AllDone == <>(\A p \in Procs : at[p][1] = 3)
=============================================================================
