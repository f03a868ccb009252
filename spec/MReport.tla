------------------------------ MODULE MReport ------------------------------
(* Sizes around the steps of the units: the exact decimal text of n in a unit
   is accepted as n in that unit only, and not as any other number; the rounded
   one says no number further away than half of its last figure. *)
EXTENDS Report, Integers, Json, IOUtils, TLC

CONSTANT Around
Steps == {0, 1, 10, 100, 1000, 1024, 1536, 2048, 10240, 102400, 1048576, 1572864, 10485760, 104857600, 1048576000, 1073741824, 1610612736, 2147483000}
VARIABLE n
Init == \E s \in Steps, j \in (0 - Around)..Around : s + j >= 0 /\ n = s + j
Next == UNCHANGED n
Spec == Init /\ [][Next]_n

N0(x) == NatDigits(x)
(* n / 1024^k has 10 * k decimals: multiply by (10^10/1024)^k. *)
RECURSIVE Scaled(_, _)
Scaled(d, k) == IF k = 0 THEN d ELSE Scaled(BigMul(d, 9765625), k - 1)
Text(x, k) ==
  IF k = 0 THEN Dec(N0(x))
  ELSE LET d == Scaled(N0(x), k)
           p == [i \in 1..(IF Len(d) > 10 * k THEN 0 ELSE 10 * k + 1 - Len(d)) |-> 0] \o d
       IN Dec(SubSeq(p, 1, Len(p) - 10 * k)) \o <<cDot>> \o Dec(SubSeq(p, Len(p) - 10 * k + 1, Len(p)))
Right(x) == IF x < 1024 THEN {0} ELSE IF x = 1024 THEN {0, 1} ELSE IF x < 1048576 THEN {1} ELSE IF x = 1048576 THEN {1, 2}
            ELSE IF x < 1073741824 THEN {2} ELSE IF x = 1073741824 THEN {2, 3} ELSE {3}
Exact == \A k \in 0..3 :
  /\ Says(Text(n, k), k, N0(n), TRUE) <=> k \in Right(n)
  /\ \A j \in {0 - 1, 1} : n + j >= 0 => ~Says(Text(n, k), k, N0(n + j), TRUE)
(* The first two decimals, cut: at most a hundredth too low. *)
Cut(x, k) == LET t == Text(x, k) IN IF k = 0 THEN t \o <<cDot, 48, 48>> ELSE SubSeq(t, 1, Len(t) - 10 * k + 2)
RECURSIVE P1024(_)
P1024(k) == IF k = 0 THEN 1 ELSE 1024 * P1024(k - 1)
Rounded == \A k \in Right(n) \cap {0, 1, 2} :
  LET u == P1024(k)
      low == (100 * (n % u)) % u IN
  /\ k = 2 \/ (Says(Cut(n, k), k, N0(n), FALSE) <=> low * 2000 <= u * 1001)
  /\ ~Says(Cut(n, k), k, N0(n + (u \div 50) + 1), FALSE)
Told1 == IOEnv.OUT = "" \/ PrintT("GEN " \o ToJson([n |-> n]))
(* Lines and labels *)
ASSUME LET s == <<97, 10, 32, 32>> \o lName \o <<120, 93, 93, 10, 10>> \o lLength \o <<53>> \o sBytes \o <<93>>
           ls == Lines(s)
       IN Len(ls) = 4 /\ ls[1] = <<97>> /\ ls[3] = <<>> /\ Told(ls, lName) = {<<120, 93>>} /\ Told(ls, lLength) = {<<53, 32, 98>>} /\ Told(ls, lPieces) = {}
=============================================================================
