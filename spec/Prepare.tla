------------------------------- MODULE Prepare -------------------------------
(* Preparing the payload files, whatever their size. A content is a sequence of
   runs <<byte, count>>, no two neighbours of the same byte, none empty. *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Size(_)
Size(r) == IF r = <<>> THEN 0 ELSE Head(r)[2] + Size(Tail(r))
PushRun(r, b, n) == IF n = 0 THEN r
                    ELSE IF r # <<>> /\ r[Len(r)][1] = b
                         THEN [r EXCEPT ![Len(r)] = <<b, @[2] + n>>]
                         ELSE Append(r, <<b, n>>)
RECURSIVE FirstBytes(_, _)
FirstBytes(r, n) == IF n = 0 \/ r = <<>> THEN <<>>
                    ELSE IF Head(r)[2] >= n THEN << <<Head(r)[1], n>> >>
                    ELSE <<Head(r)>> \o FirstBytes(Tail(r), n - Head(r)[2])
ResizeRuns(r, n) == IF Size(r) >= n THEN FirstBytes(r, n) ELSE PushRun(r, 0, n - Size(r))

(* disks: sets of <<name, runs>> *)
OldOf(disk, p) == IF \E d \in disk : d[1] = p THEN (CHOOSE d \in disk : d[1] = p)[2] ELSE <<>>
Exists(disk, p) == \E d \in disk : d[1] = p
Paths(files) == {files[k].path : k \in 1..Len(files)}
Others(files, disk) == {d \in disk : d[1] \notin Paths(files)}
PreparedDisk(files, disk) ==
  Others(files, disk) \cup {<<files[k].path, ResizeRuns(OldOf(disk, files[k].path), files[k].len)>> : k \in 1..Len(files)}

(* What an interrupted preparation may leave of one file. *)
Between(old, existed, len, disk2, p) ==
  IF ~Exists(disk2, p) THEN ~existed
  ELSE LET new == OldOf(disk2, p)
       IN \/ new = old /\ existed
          \/ new = ResizeRuns(old, len)
          \/ Size(old) <= Size(new) /\ Size(new) <= len /\ new = ResizeRuns(old, Size(new))
Interrupted(files, disk, disk2) ==
  /\ Others(files, disk2) = Others(files, disk)
  /\ \A k \in 1..Len(files) : Between(OldOf(disk, files[k].path), Exists(disk, files[k].path), files[k].len, disk2, files[k].path)
=============================================================================
