-------------------------------- MODULE MWire --------------------------------
(* Encoding and decoding are inverse on every short sequence of messages, with
   every tail; decoding is sound on every short byte string. *)
EXTENDS Wire, Json, IOUtils, TLC
CONSTANTS MaxMsgs, MaxBytes
N1 == <<1, 2, 3, 4>>
N2 == <<0, 0, 64, 0>>
N3 == <<255, 255, 255, 255>>
Some == {Msg(t, Zero4, Zero4, Zero4, <<>>) : t \in Plain \cup {"keepalive"}}
  \cup {Msg("have", n, Zero4, Zero4, <<>>) : n \in {Zero4, N3}}
  \cup {Msg("bitfield", Zero4, Zero4, Zero4, b) : b \in {<<0>>, <<255>>, <<0, 0, 0, 1, 6>>}}
  \cup {Msg("request", n, N2, k, <<>>) : n \in {Zero4, N1}, k \in {N2, N3}}
  \cup {Msg("piece", n, N2, Zero4, b) : n \in {Zero4, N3}, b \in {<<>>, <<7>>, <<0, 0, 0, 0>>}}
Tails == {<<>>, <<0>>, <<0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 0, 1, 9>>, <<0, 0, 0, 9, 7, 0, 0>>, <<255, 255, 255, 255, 7>>, <<0, 0, 0, 2, 0, 0>>}
Alphabet == {0, 1, 4, 5, 6, 7, 9, 255}
VARIABLES kind, ms, tail
Init == \/ kind = "msgs" /\ ms = <<>> /\ tail \in Tails
        \/ kind = "raw" /\ ms = <<>> /\ tail = <<>>
Next == /\ kind' = kind
        /\ \/ kind = "msgs" /\ Len(ms) < MaxMsgs /\ \E m \in Some : ms' = Append(ms, m) /\ tail' = tail
           \/ kind = "raw" /\ Len(tail) < MaxBytes /\ \E b \in Alphabet : tail' = Append(tail, b) /\ ms' = ms
Spec == Init /\ [][Next]_<<kind, ms, tail>>
D == EncodedAll(ms) \o tail
Inverse == kind = "msgs" =>
  LET r == DecodePrefix(D) IN /\ r.ms = ms /\ r.p = Len(D) - Len(tail)
                              /\ Len(EncodedAll(ms)) = SizeOf(ms)
Sound == LET r == DecodeAt(tail, 0) IN
  r.k = "ok" => /\ Len(Encoded(r.m)) = r.n /\ r.n <= Len(tail) /\ Encoded(r.m) = SubSeq(tail, 1, r.n)
(* a message cannot be seen before it is complete, nor change when more follows *)
Prefix == LET r == DecodeAt(tail, 0) IN
  r.k = "ok" => /\ \A k \in 0..(r.n - 1) : DecodeAt(SubSeq(tail, 1, k), 0).k = "bad"
                /\ \A b \in Alphabet : DecodeAt(Append(tail, b), 0) = r
Script == [ms |-> ms, tail |-> tail]
Emit == IOEnv.OUT = "" \/ PrintT("GEN " \o ToJson(Script))
=============================================================================
