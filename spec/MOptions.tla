------------------------------ MODULE MOptions ------------------------------
(* All short texts of limits and of ports. TLC checks that Options reads exactly
   those that are written from a sign, a number and a unit, each as what it was
   written from, and writes the texts down for the real parser. *)
EXTENDS Options, Integers, FiniteSets, Json, IOUtils, TLC

CONSTANT Most
Letters == {45, 48, 49, 57, 66, 98, 75, 107, 77, 71, 103, 120, 32, 43, 46}
Texts == UNION {[1..n -> Letters] : n \in 0..Most}

VARIABLES s
Init == s = <<>>
Next == Len(s) < Most /\ \E c \in Letters : s' = Append(s, c)
Spec == Init /\ [][Next]_s

(* Written differently: all the ways to write a limit. *)
RECURSIVE Val(_)
Val(x) == IF x = <<>> THEN 0 ELSE 10 * Val(SubSeq(x, 1, Len(x) - 1)) + (x[Len(x)] - 48)
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 1024 * Pow(k - 1)
Ways(t) ==
  {w \in [neg : BOOLEAN, cut : 0..1, from : 1..2] :
     /\ w.from = (IF w.neg THEN 2 ELSE 1)
     /\ w.neg => Len(t) >= 1 /\ t[1] = 45
     /\ Len(t) - w.cut >= w.from
     /\ \A i \in w.from..(Len(t) - w.cut) : t[i] \in 48..57
     /\ w.cut = 1 => t[Len(t)] \in {66, 98, 75, 107, 77, 109, 71, 103}}
Right ==
  LET l == Limit(s)
      ws == Ways(s)
  IN /\ Cardinality(ws) <= 1
     /\ l.ok = (ws # {})
     /\ l.ok => \A w \in ws :
          LET n == Val(SubSeq(s, w.from, Len(s) - w.cut))
              k == IF w.cut = 0 THEN 0 ELSE Unit(s[Len(s)])
          IN /\ (k < 3 /\ (n < 2000 \/ k < 2)) => l.d = NatDigits(n * Pow(k))
             /\ k = 3 => l.d = Shift(NatDigits(n), 3)
             /\ l.neg = (w.neg /\ n > 0)
Told == IOEnv.OUT = "" \/ PrintT("GEN " \o ToJson([s |-> s]))

(* At the ends of 64 bits. *)
A(d) == [i \in 1..Len(d) |-> d[i] + 48]
Ends ==
  /\ Limit(A(MaxInt64)).ok /\ ~Limit(A(MinInt64Abs)).ok
  /\ Limit(<<45>> \o A(MinInt64Abs)).ok /\ ~Limit(<<45>> \o A(BigAdd(MinInt64Abs, <<1>>))).ok
  /\ Limit(A(<<8,5,8,9,9,3,4,5,9,1>>) \o <<71>>).ok /\ ~Limit(A(<<8,5,8,9,9,3,4,5,9,2>>) \o <<71>>).ok
  /\ Limit(<<45>> \o A(<<8,5,8,9,9,3,4,5,9,2>>) \o <<71>>) = [ok |-> TRUE, neg |-> TRUE, d |-> MinInt64Abs]
  /\ Port(A(<<6,5,5,3,5>>)).class = "must" /\ Port(A(<<6,5,5,3,6>>)).class = "no" /\ Port(<<45,49>>).class = "no"
ASSUME Ends
=============================================================================
