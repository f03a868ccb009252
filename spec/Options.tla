------------------------------- MODULE Options -------------------------------
(* What the options on the command line mean. Texts are sequences of bytes. *)
EXTENDS BigNum

cMinus == 45
IsDigit(c) == c >= 48 /\ c <= 57
Unit(c) == CASE c \in {66, 98} -> 0 [] c \in {75, 107} -> 1 [] c \in {77, 109} -> 2 [] c \in {71, 103} -> 3 [] OTHER -> 4

RECURSIVE Shift(_, _)
Shift(d, k) == IF k = 0 THEN d ELSE Shift(BigMul(d, 1024), k - 1)

Refuse == [ok |-> FALSE]

(* A limit: a sign, digits, and a unit. *)
Limit(s) ==
  LET neg == Len(s) > 0 /\ s[1] = cMinus
      a == IF neg THEN SubSeq(s, 2, Len(s)) ELSE s
      unit == IF a # <<>> /\ ~IsDigit(a[Len(a)]) THEN Unit(a[Len(a)]) ELSE 0
      n == IF a # <<>> /\ ~IsDigit(a[Len(a)]) THEN SubSeq(a, 1, Len(a) - 1) ELSE a
  IN IF n = <<>> \/ unit = 4 \/ (\E i \in 1..Len(n) : ~IsDigit(n[i])) THEN Refuse
     ELSE LET d == Shift(StripZeros([i \in 1..Len(n) |-> n[i] - 48]), unit)
          IN IF ~InInt64(neg, d) THEN Refuse
             ELSE [ok |-> TRUE, neg |-> neg /\ d # <<0>>, d |-> d]

(* A port: the spellings that are surely one, those that are surely none. *)
Port(s) ==
  IF s = <<>> \/ (\E i \in 1..Len(s) : ~IsDigit(s[i]))
  THEN IF s # <<>> /\ IsDigit(s[1]) THEN [class |-> "either"] ELSE [class |-> "no"]
  ELSE LET d == StripZeros([i \in 1..Len(s) |-> s[i] - 48])
       IN IF BigLess(<<6,5,5,3,5>>, d) THEN [class |-> "no"]
          ELSE IF Len(s) > 1 /\ s[1] = 48 THEN [class |-> "either"]
          ELSE [class |-> "must", n |-> DigitsVal(d)]

Swarm == <<115,119,97,114,109>>
Info == <<105,110,102,111>>
Cmds == {Swarm, Info}
DefaultPort == 60666
DefaultLimit == [ok |-> TRUE, neg |-> TRUE, d |-> <<1>>]

(* given: for each option, whether it is there, and its text. *)
Text(o) == o.b
LimitGiven(o) == IF o.there THEN Limit(o.b) ELSE DefaultLimit
PortGiven(o) == IF o.there THEN Port(o.b) ELSE [class |-> "must", n |-> DefaultPort]

MustRefuse(g) == \/ ~g.i.there \/ g.i.b = <<>>
                 \/ g.cmd.there /\ g.cmd.b \notin Cmds
                 \/ PortGiven(g.p).class = "no"
                 \/ ~LimitGiven(g.u).ok \/ ~LimitGiven(g.d).ok
Lim(l) == [neg |-> l.neg, d |-> l.d]
OptionsOK(g, out) ==
  IF MustRefuse(g) THEN ~out.ok
  ELSE IF PortGiven(g.p).class = "either" THEN TRUE
  ELSE /\ out.ok
       /\ out.i = g.i.b
       /\ out.w = (IF g.w.there THEN g.w.b ELSE <<>>)
       /\ out.cmd = (IF g.cmd.there THEN g.cmd.b ELSE Swarm)
       /\ out.p = PortGiven(g.p).n
       /\ out.u = Lim(LimitGiven(g.u)) /\ out.d = Lim(LimitGiven(g.d))
=============================================================================
