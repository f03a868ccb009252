------------------------------- MODULE ReadLoop -------------------------------
(* Handing over what arrives on a connection. The state:
   stream   the bytes that arrived,
   over     whether the stream ended, or broke, after these bytes,
   taken    how many bytes were handed over,
   held     the bytes that the consumer was handed and is not done with,
   told     whether the end was reported,
   fin      whether the consumer has finished the loop. *)
EXTENDS Naturals, Sequences

LoopInit == [stream |-> <<>>, over |-> FALSE, taken |-> 0, held |-> <<>>, told |-> FALSE, fin |-> FALSE]

Push(st, b, end) == [st EXCEPT !.stream = @ \o b, !.over = @ \/ end]
Due(st) == st.held = <<>> /\ ~st.told /\ ~st.fin /\ (st.taken < Len(st.stream) \/ st.over)

(* Being handed b is right. *)
DataOK(st, b) == /\ st.held = <<>> /\ Len(b) > 0 /\ st.taken + Len(b) <= Len(st.stream)
                 /\ b = SubSeq(st.stream, st.taken + 1, st.taken + Len(b))
Take(st, b) == [st EXCEPT !.taken = @ + Len(b), !.held = b]
(* Being told of the end is right. *)
EndOK(st) == st.over /\ st.taken = Len(st.stream) /\ ~st.told
Tell(st) == [st EXCEPT !.told = TRUE]
Ready(st) == [st EXCEPT !.held = <<>>]
Finish(st) == [st EXCEPT !.fin = TRUE]
=============================================================================
