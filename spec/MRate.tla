-------------------------------- MODULE MRate --------------------------------
(* Goroutines that share a limiter: they take turns under a lock for their
   direction, as in the code; refills and changes of the rate come in at any
   time. *)
EXTENDS RateLimit
CONSTANTS Procs, Sizes, Rates, Transfers
SomeRates == {-1, 0, 3}
VARIABLES st, pc, size, left, lock, since, refills, total, touched
vars == <<st, pc, size, left, lock, since, refills, total, touched>>
DirOf(p) == IF p % 2 = 0 THEN "r" ELSE "w"
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Init == /\ \E r \in Rates : st = [RateInit EXCEPT !["w"].rate = r, !["r"].rate = r]
        /\ pc = [p \in Procs |-> "idle"] /\ size = [p \in Procs |-> 0] /\ left = [p \in Procs |-> Transfers]
        /\ lock = [d \in Dirs |-> 0] /\ since = [d \in Dirs |-> 0] /\ refills = 0 /\ total = [d \in Dirs |-> 0] /\ touched = 0
Start(p) == /\ pc[p] = "idle" /\ left[p] > 0
            /\ \E m \in Sizes : size' = [size EXCEPT ![p] = m]
            /\ pc' = [pc EXCEPT ![p] = IF st[DirOf(p)].rate = -1 THEN "free" ELSE "lock"]
            /\ left' = [left EXCEPT ![p] = @ - 1] /\ UNCHANGED <<st, lock, since, refills, total, touched>>
Take(p) == /\ pc[p] = "lock" /\ lock[DirOf(p)] = 0 /\ lock' = [lock EXCEPT ![DirOf(p)] = p]
           /\ pc' = [pc EXCEPT ![p] = "poll"] /\ UNCHANGED <<st, size, left, since, refills, total, touched>>
Account(p) == LET d == DirOf(p) IN /\ st' = [st EXCEPT ![d].used = @ + size[p], ![d].done = @ + 1]
                                   /\ since' = [since EXCEPT ![d] = @ + size[p]]
                                   /\ total' = [total EXCEPT ![d] = @ + size[p]]
Free(p) == pc[p] = "free" /\ Account(p) /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<size, left, lock, refills, touched>>
(* seeing that it may pass, and accounting for it, are two steps *)
Poll(p) == /\ pc[p] = "poll" /\ MayPass(st[DirOf(p)]) /\ pc' = [pc EXCEPT ![p] = "go"]
           /\ UNCHANGED <<st, size, left, lock, since, refills, total, touched>>
Go(p) == /\ pc[p] = "go" /\ Account(p) /\ pc' = [pc EXCEPT ![p] = "idle"]
         /\ lock' = [lock EXCEPT ![DirOf(p)] = 0] /\ UNCHANGED <<size, left, refills, touched>>
Tick == /\ refills < 3 /\ st' = Refill(st) /\ since' = [d \in Dirs |-> 0] /\ refills' = refills + 1
        /\ UNCHANGED <<pc, size, left, lock, total, touched>>
(* after the counted refills, more follow *)
Late == /\ refills = 3 /\ \E d \in Dirs : st[d].used > 0
        /\ st' = Refill(st) /\ since' = [d \in Dirs |-> 0] /\ touched' = 2 /\ UNCHANGED <<pc, size, left, lock, refills, total>>
Change == /\ touched = 0 /\ touched' = 1
          /\ \E d \in Dirs, v \in Rates \cup {-5} : st' = SetRate(st, d, v)
          /\ UNCHANGED <<pc, size, left, lock, since, refills, total>>
Next == (\E p \in Procs : Start(p) \/ Take(p) \/ Free(p) \/ Poll(p) \/ Go(p)) \/ Tick \/ Late \/ Change
Fair == /\ \A p \in Procs : WF_vars(Start(p)) /\ SF_vars(Take(p)) /\ WF_vars(Free(p)) /\ SF_vars(Poll(p)) /\ WF_vars(Go(p))
        /\ WF_vars(Tick) /\ WF_vars(Late)
Spec == Init /\ [][Next]_vars /\ Fair

M == Max(Sizes)
(* with a limit that stayed, in every window less than the limit and one message *)
Respected == touched = 0 => \A d \in Dirs : st[d].rate >= 0 =>
  (* a refill may come between polling and accounting *)
  /\ total[d] = 0 \/ total[d] <= Bound(st[d].rate, M, refills)
Locked == \A d \in Dirs : lock[d] # 0 => pc[lock[d]] \in {"poll", "go"}
(* under a positive limit, or none, everybody gets done *)
Alive == \A p \in Procs : [](pc[p] # "idle" => <>(pc[p] = "idle" \/ st[DirOf(p)].rate = 0))
=============================================================================
