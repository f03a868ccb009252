-------------------------------- MODULE Judge --------------------------------
(* Reading of recorded events, and the order in which they are visited. *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Stride == 16

VARIABLE l
Init == l \in 1..(IF N < Stride THEN N ELSE Stride)
Next == l + Stride <= N /\ l' = l + Stride
Spec == Init /\ [][Next]_l
=============================================================================
