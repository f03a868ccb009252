------------------------------ MODULE MLayout ------------------------------
(* A cursor that walks through the files handing out one segment at a time,
   as an implementation does, against the declarative partition of Layout. *)
EXTENDS Layout, FiniteSets, SequencesExt, FiniteSetsExt, Json, IOUtils, TLC

CONSTANTS MaxFiles, MaxLen, MaxPlen
Cases == {[lens |-> l, plen |-> p] : l \in UNION {[1..m -> 0..MaxLen] : m \in 1..MaxFiles}, p \in 1..MaxPlen}
Sum(l) == FoldSeq(LAMBDA x, y : x + y, 0, l)
Count(c) == (Sum(c.lens) + c.plen - 1) \div c.plen
LP(c) == [i \in 1..Len(c.lens) |-> P(c.lens[i])]

VARIABLES c, file, off, pos, pieces
vars == <<c, file, off, pos, pieces>>
Init == c \in Cases /\ file = 1 /\ off = 0 /\ pos = 0 /\ pieces = [i \in 1..Count(c) |-> <<>>]
Take == /\ file <= Len(c.lens) /\ off < c.lens[file]
        /\ LET i == pos \div c.plen
               room == c.plen - (pos % c.plen)
               left == c.lens[file] - off
               n == IF room < left THEN room ELSE left
           IN /\ pieces' = [pieces EXCEPT ![i + 1] = Append(@, [f |-> file, seek |-> P(off), n |-> P(n)])]
              /\ off' = off + n /\ pos' = pos + n
        /\ UNCHANGED <<c, file>>
NextFile == /\ file <= Len(c.lens) /\ off = c.lens[file]
            /\ file' = file + 1 /\ off' = 0 /\ UNCHANGED <<c, pos, pieces>>
Next == Take \/ NextFile
Spec == Init /\ [][Next]_vars

Done == file > Len(c.lens)
Agree == Done => /\ IsCount(Count(c), P(c.plen), P(Sum(c.lens)))
                 /\ \A i \in 1..Count(c) : pieces[i] = Segs(LP(c), P(c.plen), i - 1)
(* The partition is exact: each byte of each file exactly once, in order. *)
Bytes(segs) == FoldSeq(LAMBDA s, acc : acc \o [j \in 1..s.n[2] |-> <<s.f, s.seek[2] + j>>], <<>>, segs)
Exact == Done => FoldSeq(LAMBDA s, acc : acc \o Bytes(s), <<>>, pieces)
                 = FoldSeq(LAMBDA k, acc : acc \o [j \in 1..c.lens[k] |-> <<k, j>>], <<>>, [k \in 1..Len(c.lens) |-> k])
ASSUME IOEnv.OUT = "" \/ ndJsonSerialize(IOEnv.OUT,
  SetToSeq({[op |-> "layout", lens |-> LP(x), plen |-> P(x.plen), n |-> Count(x)] : x \in Cases}))
=============================================================================
