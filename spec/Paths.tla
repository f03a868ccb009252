-------------------------------- MODULE Paths --------------------------------
(* Unix path names as byte sequences, resolved by name alone. *)
EXTENDS Naturals, Sequences
LOCAL INSTANCE SequencesExt

cSlash == 47
cDot == 46
Dot == <<cDot>>
DotDot == <<cDot, cDot>>

(* The components of a path, empty ones included. *)
Split(s) == FoldLeft(LAMBDA acc, c : IF c = cSlash THEN Append(acc, <<>>)
                                     ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)], << <<>> >>, s)

(* Walk a sequence of components from a directory. *)
Walk(start, comps) ==
  FoldLeft(LAMBDA dir, c : IF c = <<>> \/ c = Dot THEN dir
                           ELSE IF c = DotDot THEN (IF dir = <<>> THEN <<>> ELSE SubSeq(dir, 1, Len(dir) - 1))
                           ELSE Append(dir, c), start, comps)

IsAbs(p) == p # <<>> /\ p[1] = cSlash
(* The place a path denotes for a process whose current directory is cwd. *)
Resolve(cwd, p) == IF IsAbs(p) THEN Walk(<<>>, Split(p))
                   ELSE Walk(Walk(<<>>, Split(cwd)), Split(p))

StrictlyInside(dir, place) == Len(place) > Len(dir) /\ SubSeq(place, 1, Len(dir)) = dir

Ordinary(c) == /\ c # <<>> /\ c # Dot /\ c # DotDot
               /\ \A i \in 1..Len(c) : c[i] # cSlash /\ c[i] # 0

RECURSIVE JoinFrom(_, _)
JoinFrom(cs, i) == IF i > Len(cs) THEN <<>>
                   ELSE IF i = Len(cs) THEN cs[i]
                   ELSE cs[i] \o <<cSlash>> \o JoinFrom(cs, i + 1)
Join(cs) == JoinFrom(cs, 1)
=============================================================================
