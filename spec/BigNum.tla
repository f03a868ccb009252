------------------------------- MODULE BigNum -------------------------------
(* Numbers that do not fit the 32 bit integers of TLC: naturals as sequences
   of decimal digits, most significant first, without leading zeros, and
   integers as a sign and such a sequence. *)
EXTENDS Naturals, Sequences

RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 0 THEN StripZeros(Tail(d)) ELSE d

RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN <<n>> ELSE Append(NatDigits(n \div 10), n % 10)

(* Lexicographic comparison of equally long sequences: -1, 0, 1 as 0, 1, 2. *)
RECURSIVE CmpLex(_, _, _)
CmpLex(a, b, i) ==
  IF i > Len(a) THEN 1
  ELSE IF a[i] < b[i] THEN 0
  ELSE IF a[i] > b[i] THEN 2
  ELSE CmpLex(a, b, i + 1)

BigLess(a, b) == \/ Len(a) < Len(b)
                 \/ Len(a) = Len(b) /\ CmpLex(a, b, 1) = 0
BigLeq(a, b) == a = b \/ BigLess(a, b)

(* Little endian helpers. *)
Rev(d) == [i \in 1..Len(d) |-> d[Len(d) + 1 - i]]
At(d, i) == IF i <= Len(d) THEN d[i] ELSE 0

RECURSIVE AddLE(_, _, _, _)
AddLE(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b)
  THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET x == At(a, i) + At(b, i) + c
       IN <<x % 10>> \o AddLE(a, b, i + 1, x \div 10)

BigAdd(a, b) == StripZeros(Rev(AddLE(Rev(a), Rev(b), 1, 0)))

(* a - b for b <= a *)
RECURSIVE SubLE(_, _, _, _)
SubLE(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET x == 10 + a[i] - At(b, i) - c
       IN <<x % 10>> \o SubLE(a, b, i + 1, IF x < 10 THEN 1 ELSE 0)
BigSub(a, b) == StripZeros(Rev(SubLE(Rev(a), Rev(b), 1, 0)))

(* Multiplication with a small number (below 10^8). *)
RECURSIVE MulLE(_, _, _, _)
MulLE(a, n, i, c) ==
  IF i > Len(a)
  THEN IF c = 0 THEN <<>> ELSE Rev(NatDigits(c))
  ELSE LET x == a[i] * n + c
       IN <<x % 10>> \o MulLE(a, n, i + 1, x \div 10)
BigMul(a, n) == StripZeros(Rev(MulLE(Rev(a), n, 1, 0)))

RECURSIVE BigSum(_)
BigSum(s) == IF s = <<>> THEN <<0>> ELSE BigAdd(Head(s), BigSum(Tail(s)))

IsDigits(d) == /\ Len(d) >= 1
               /\ \A i \in 1..Len(d) : d[i] \in 0..9
               /\ Len(d) > 1 => d[1] # 0

MaxInt64 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
MinInt64Abs == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
MaxUint64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>

InInt64(neg, d) == IF neg THEN BigLeq(d, MinInt64Abs) ELSE BigLeq(d, MaxInt64)

(* The value of a digit sequence known to be small. *)
RECURSIVE DigitsVal(_)
DigitsVal(d) == IF d = <<>> THEN 0
                ELSE 10 * DigitsVal(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)]
=============================================================================
