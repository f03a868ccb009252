------------------------------ MODULE Bitfield ------------------------------
(* A bitfield as a set of piece indices. A state is a record [nbits, nbytes,
   bits]: bits holds the indices, from 0, of all bits set in the bytes, spare
   ones included; those below nbits are the members. *)
EXTENDS Integers, Sequences, FiniteSets

NeedBytes(n) == (n + 7) \div 8
Members(st) == {i \in st.bits : i < st.nbits}

Pow == <<128, 64, 32, 16, 8, 4, 2, 1>>
BitOf(byte, j) == (byte \div Pow[j + 1]) % 2 = 1    \* j = 0 is the highest
BitsOfBytes(b) == {i \in 0..(8 * Len(b) - 1) : BitOf(b[(i \div 8) + 1], i % 8)}
RECURSIVE SumBits(_, _, _)
SumBits(bits, k, j) == IF j = 8 THEN 0 ELSE (IF 8 * k + j \in bits THEN Pow[j + 1] ELSE 0) + SumBits(bits, k, j + 1)
BytesOfBits(bits, nbytes) == [k \in 1..nbytes |-> SumBits(bits, k - 1, 0)]

NewBits(n) == [nbits |-> n, nbytes |-> NeedBytes(n), bits |-> {}]
NoBits == [nbits |-> 0 - 1, nbytes |-> 0, bits |-> {}]

Spare(st) == {i \in st.bits : i >= st.nbits}

(* Pairs <<accepted, next state>>. When the meaning of spare bits is left open,
   any part of those there were may stay. *)
Adopt(st, b5, n) ==
  LET b == SubSeq(b5, 6, Len(b5))
      good == <<TRUE, [nbits |-> n, nbytes |-> Len(b), bits |-> BitsOfBytes(b)]>>
  IN IF Len(b5) < 5 THEN {<<FALSE, st>>}
     ELSE IF Len(b5) = 5 /\ n = 0 THEN {good, <<FALSE, st>>}
     ELSE IF n >= 0 /\ NeedBytes(n) = Len(b) THEN {good}
     ELSE {<<FALSE, st>>}
SetBit(st, i, v) == {<<TRUE, [st EXCEPT !.bits = IF v THEN @ \cup {i} ELSE @ \ {i}]>>}
FillBits(st) == {<<TRUE, [st EXCEPT !.bits = 0..(st.nbits - 1) \cup s]>> : s \in SUBSET Spare(st)}
Renumber(st, n) ==
  IF n >= 0 /\ NeedBytes(n) = st.nbytes
  THEN {<<TRUE, [st EXCEPT !.nbits = n, !.bits = {i \in @ : i < n} \cup s]>> : s \in SUBSET {i \in st.bits : i >= n}}
  ELSE {<<FALSE, st>>}

(* What is seen of a bitfield *)
SeenOK(st, see) ==
  IF st = NoBits THEN see.nbits = 0 - 1
  ELSE /\ see.nbits = st.nbits /\ see.nbytes = st.nbytes
       /\ see.nset = Cardinality(Members(st))
       /\ see.complete = (Members(st) = 0..(st.nbits - 1))
       /\ see.data = BytesOfBits(st.bits, st.nbytes) /\ see.tail = see.data
       /\ Len(see.get) = st.nbits
       /\ \A i \in 1..st.nbits : see.get[i] = (i - 1 \in st.bits)
=============================================================================
