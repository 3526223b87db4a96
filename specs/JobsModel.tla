------------------------------- MODULE JobsModel -------------------------------
(* One thread per job, a semaphore with n slots, jobs that succeed or throw,
   and a submitter that may wait for a free slot after each job.               *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS J, MaxSlots

VARIABLES slots, n, pc, fails, said, free, sub, cycles
vars == <<slots, n, pc, fails, said, free, sub, cycles>>
Jobs == 1..J

Init ==
  /\ n \in 1..MaxSlots /\ slots = n /\ free = FALSE
  /\ pc = [j \in Jobs |-> "new"] /\ fails \in [Jobs -> BOOLEAN] /\ cycles \in BOOLEAN
  /\ said = [j \in Jobs |-> <<>>] /\ sub = "submit"
At(j, l) == pc' = [pc EXCEPT ![j] = l]
Say(j, w) == said' = [said EXCEPT ![j] = Append(@, w)]
NextJob == {j \in Jobs : pc[j] = "new" /\ \A k \in Jobs : k < j => pc[k] # "new"}
Submit(j) == /\ sub = "submit" /\ j \in NextJob /\ At(j, "wait")
             /\ sub' = (IF cycles THEN "cycle" ELSE "submit") /\ UNCHANGED <<slots, n, fails, said, free, cycles>>
Cycle == /\ sub = "cycle" /\ slots > 0 /\ slots' = slots - 1 /\ sub' = "back" /\ UNCHANGED <<n, pc, fails, said, free, cycles>>
Back == /\ sub = "back" /\ slots' = slots + 1 /\ sub' = "submit" /\ UNCHANGED <<n, pc, fails, said, free, cycles>>
Take(j) == /\ pc[j] = "wait" /\ slots > 0 /\ slots' = slots - 1 /\ At(j, "run") /\ UNCHANGED <<n, fails, said, free, sub, cycles>>
Run(j) == /\ pc[j] = "run" /\ At(j, "ran") /\ Say(j, IF fails[j] THEN "error" ELSE "success")
          /\ UNCHANGED <<slots, n, fails, free, sub, cycles>>
Done(j) == /\ pc[j] = "ran" /\ At(j, "told") /\ Say(j, "completed") /\ UNCHANGED <<slots, n, fails, free, sub, cycles>>
Give(j) == /\ pc[j] = "told" /\ At(j, "gone") /\ slots' = slots + 1 /\ UNCHANGED <<n, fails, said, free, sub, cycles>>
Next == Cycle \/ Back \/ \E j \in Jobs : Submit(j) \/ Take(j) \/ Run(j) \/ Done(j) \/ Give(j)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ SF_vars(Cycle)
         /\ \A j \in Jobs : SF_vars(Take(j))

Executing == {j \in Jobs : pc[j] \in {"run", "ran", "told"}}
AtMostN == Cardinality(Executing) <= n
SlotsKept == slots + Cardinality(Executing) + (IF sub = "back" THEN 1 ELSE 0) = n
Outcomes == \A j \in Jobs : pc[j] \in {"told", "gone"} =>
              said[j] = [k \in 1..2 |-> IF k = 2 THEN "completed" ELSE IF fails[j] THEN "error" ELSE "success"]
Stops == (~ENABLED Next) => \A j \in Jobs : pc[j] = "gone"
AllRun == <>(\A j \in Jobs : pc[j] = "gone")
==============================================================================
