------------------------------ MODULE MPrepare ------------------------------
(* Preparation of one file, block by block, interrupted at any moment, against
   the laws of Prepare. *)
EXTENDS Prepare, TLC
CONSTANTS MaxLen, Block, MaxCuts
F(n) == <<[path |-> "f", len |-> n]>>
Runs(bs) == LET RECURSIVE go(_, _)
                go(i, acc) == IF i > Len(bs) THEN acc ELSE go(i + 1, PushRun(acc, bs[i], 1))
            IN go(1, <<>>)
VARIABLES len, there, cont, first, up, cuts
vars == <<len, there, cont, first, up, cuts>>
D(t, c) == IF t THEN {<<"f", c>>} ELSE {}
Init == /\ len \in 0..MaxLen /\ there \in BOOLEAN
        /\ \E n \in 0..(MaxLen + 1) : \E b \in [1..n -> {0, 5}] : (there \/ n = 0) /\ cont = Runs(b)
        /\ first = D(there, cont) /\ up = TRUE /\ cuts = 0
Step == /\ up
        /\ IF ~there THEN there' = TRUE /\ cont' = <<>>
           ELSE /\ there' = there
                /\ Size(cont) # len
                /\ cont' = IF Size(cont) > len THEN FirstBytes(cont, len)
                           ELSE PushRun(cont, 0, IF len - Size(cont) > Block THEN Block ELSE len - Size(cont))
        /\ UNCHANGED <<len, first, up, cuts>>
Cut == up /\ cuts < MaxCuts /\ up' = FALSE /\ cuts' = cuts + 1 /\ UNCHANGED <<len, there, cont, first>>
Again == ~up /\ up' = TRUE /\ UNCHANGED <<len, there, cont, first, cuts>>
Next == Step \/ Cut \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Step) /\ WF_vars(Again)
AlwaysBetween == Interrupted(F(len), first, D(there, cont))
Ends == <>[](D(there, cont) = PreparedDisk(F(len), first))
=============================================================================
