------------------------------- MODULE MBits -------------------------------
(* An implementation of the bitfield over bytes, with a count kept up to date,
   against the set of Bitfield: every sequence of operations. *)
EXTENDS Bitfield, TLC
CONSTANTS MaxBits
VARIABLES st, bytes, nset
vars == <<st, bytes, nset>>
Ones == {<<>>, <<255>>, <<160>>, <<1>>, <<255, 255>>, <<128, 64>>}
Init == \E n \in 0..MaxBits : st = NewBits(n) /\ bytes = [k \in 1..NeedBytes(n) |-> 0] /\ nset = 0
Flip(b, i) == [b EXCEPT ![(i \div 8) + 1] = IF BitOf(@, i % 8) THEN @ - Pow[(i % 8) + 1] ELSE @ + Pow[(i % 8) + 1]]
Count(b, n) == Cardinality({i \in 0..(n - 1) : BitOf(b[(i \div 8) + 1], i % 8)})
DoSet == \E i \in 0..(st.nbits - 1), v \in BOOLEAN :
  /\ \E r \in SetBit(st, i, v) : st' = r[2]
  /\ LET was == BitOf(bytes[(i \div 8) + 1], i % 8)
     IN IF was = v THEN UNCHANGED <<bytes, nset>>
        ELSE bytes' = Flip(bytes, i) /\ nset' = IF v THEN nset + 1 ELSE nset - 1
DoAdopt == \E b \in Ones, n \in 0..MaxBits :
  /\ NeedBytes(n) = Len(b)
  /\ bytes' = b /\ nset' = Count(b, n)
  /\ \E r \in Adopt(st, <<0, 0, 0, 0, 0>> \o b, n) : r[1] /\ st' = r[2]
DoFill == /\ bytes' = BytesOfBits(0..(st.nbits - 1), st.nbytes) /\ nset' = st.nbits
          /\ \E r \in FillBits(st) : r[1] /\ st' = r[2] /\ BytesOfBits(r[2].bits, st.nbytes) = bytes'
DoNum == \E n \in 0..MaxBits :
  /\ NeedBytes(n) = st.nbytes /\ bytes' = bytes /\ nset' = Count(bytes, n)
  /\ \E r \in Renumber(st, n) : r[1] /\ st' = r[2] /\ BytesOfBits(r[2].bits, st.nbytes) = bytes'
Next == DoSet \/ DoAdopt \/ DoFill \/ DoNum
Spec == Init /\ [][Next]_vars
Same == /\ bytes = BytesOfBits(st.bits, st.nbytes) /\ BitsOfBytes(bytes) = st.bits
        /\ nset = Cardinality(Members(st)) /\ (nset = st.nbits) = (Members(st) = 0..(st.nbits - 1))
        /\ \A i \in 0..(st.nbits - 1) : BitOf(bytes[(i \div 8) + 1], i % 8) = (i \in Members(st))
(* filling and renumbering are never stuck *)
Live == /\ ENABLED DoFill /\ \A n \in 0..MaxBits : NeedBytes(n) = st.nbytes => \E r \in Renumber(st, n) : BytesOfBits(r[2].bits, st.nbytes) = bytes
=============================================================================
