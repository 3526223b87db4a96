------------------------------- MODULE OpenModel -------------------------------
(* Opening and closing archives with one named binary semaphore per file:
   threads open a file (which can turn out not to be loadable), use it and close
   it, possibly more than once.                                                *)
EXTENDS Integers, FiniteSets

CONSTANTS T, Files, BadFiles, Rounds

VARIABLES permit, pc, file, isOpen, left
vars == <<permit, pc, file, isOpen, left>>
Threads == 1..T

Init ==
  /\ permit = [f \in Files |-> 1] /\ pc = [t \in Threads |-> "idle"]
  /\ file \in [Threads -> Files] /\ isOpen = [t \in Threads |-> FALSE]
  /\ left = [t \in Threads |-> Rounds]
At(t, l) == pc' = [pc EXCEPT ![t] = l]
Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ At(t, "wait")
            /\ \E f \in Files : file' = [file EXCEPT ![t] = f]
            /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<permit, isOpen>>
Enter(t) == /\ pc[t] = "wait" /\ permit[file[t]] > 0
            /\ permit' = [permit EXCEPT ![file[t]] = @ - 1]
            /\ isOpen' = [isOpen EXCEPT ![t] = TRUE] /\ At(t, "load") /\ UNCHANGED <<file, left>>
GiveBack(t, next) ==
  IF isOpen[t]
  THEN /\ isOpen' = [isOpen EXCEPT ![t] = FALSE]
       /\ permit' = [permit EXCEPT ![file[t]] = @ + 1] /\ At(t, next) /\ UNCHANGED <<file, left>>
  ELSE At(t, next) /\ UNCHANGED <<isOpen, permit, file, left>>
Load(t) == /\ pc[t] = "load"
           /\ IF file[t] \in BadFiles THEN GiveBack(t, "idle") ELSE At(t, "open") /\ UNCHANGED <<permit, file, isOpen, left>>
Close(t) == pc[t] = "open" /\ GiveBack(t, "closed")
Again(t) == pc[t] = "closed" /\ GiveBack(t, "closed2")      \* a second close
Leave(t) == pc[t] \in {"closed", "closed2"} /\ At(t, "idle") /\ UNCHANGED <<permit, file, isOpen, left>>
Step(t) == Begin(t) \/ Enter(t) \/ Load(t) \/ Close(t) \/ Again(t) \/ Leave(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
FairSpec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Step(t))

Inside(f) == {t \in Threads : pc[t] \in {"load", "open"} /\ file[t] = f}
OneOwner == \A f \in Files : Cardinality(Inside(f)) <= 1
OnePermit == \A f \in Files : permit[f] + Cardinality(Inside(f)) = 1
NobodyStuck == (\A t \in Threads : ~ENABLED Step(t)) => \A t \in Threads : pc[t] = "idle"
EverybodyDone == <>(\A t \in Threads : pc[t] = "idle" /\ left[t] = 0)
==============================================================================
