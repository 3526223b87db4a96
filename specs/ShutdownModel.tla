----------------------------- MODULE ShutdownModel -----------------------------
(* Shutting down: sessions ask a provider for archives and operate on them, a
   stopper closes the provider, and somebody else waits for the same archives.
   Every lock and every look at a flag is a step of its own.                   *)
EXTENDS Integers, FiniteSets

CONSTANTS S,      \* sessions
          A,      \* archives
          Ops     \* operations of each session

VARIABLES pm, closed, inst, am, sem, file, mem, pc, have, left, acked, stop, pend, out, seen
vars == <<pm, closed, inst, am, sem, file, mem, pc, have, left, acked, stop, pend, out, seen>>
Stopper == 0

Nobody == -1
Sessions == 1..S
Archives == 1..A

Init ==
  /\ pm = Nobody /\ closed = FALSE
  /\ inst = [a \in Archives |-> "none"] /\ am = [a \in Archives |-> Nobody] /\ sem = [a \in Archives |-> "free"]
  /\ file = [a \in Archives |-> {}] /\ mem = [a \in Archives |-> {}]
  /\ pc = [s \in Sessions |-> "idle"] /\ have = [s \in Sessions |-> 1] /\ left = [s \in Sessions |-> Ops]
  /\ acked = [a \in Archives |-> {}]
  /\ stop = "no" /\ pend = {} /\ out = "wait" /\ seen = {}

To(s, l) == pc' = [pc EXCEPT ![s] = l]
Value(s) == <<s, left[s]>>
Ask(s) == /\ pc[s] = "idle" /\ left[s] > 0 /\ \E a \in Archives : have' = [have EXCEPT ![s] = a]
          /\ To(s, "provide") /\ UNCHANGED <<pm, closed, inst, am, sem, file, mem, left, acked, stop, pend, out, seen>>
PLock(s) == /\ pc[s] = "provide" /\ pm = Nobody /\ pm' = s /\ To(s, "look")
            /\ UNCHANGED <<closed, inst, am, sem, file, mem, have, left, acked, stop, pend, out, seen>>
Look(s) ==
  /\ pc[s] = "look"
  /\ LET a == have[s]
     IN IF closed THEN /\ pm' = Nobody /\ To(s, "idle") /\ left' = [left EXCEPT ![s] = @ - 1] /\ UNCHANGED <<inst, sem, mem>>
        ELSE IF inst[a] # "none" THEN /\ pm' = Nobody /\ To(s, "lock") /\ UNCHANGED <<inst, sem, mem, left>>
        ELSE /\ sem[a] = "free" /\ sem' = [sem EXCEPT ![a] = "in"] /\ inst' = [inst EXCEPT ![a] = "open"]
             /\ mem' = [mem EXCEPT ![a] = file[a]] /\ pm' = Nobody /\ To(s, "lock") /\ UNCHANGED left
  /\ UNCHANGED <<closed, am, file, have, acked, stop, pend, out, seen>>
OLock(s) == /\ pc[s] = "lock" /\ am[have[s]] = Nobody /\ am' = [am EXCEPT ![have[s]] = s] /\ To(s, "check")
            /\ UNCHANGED <<pm, closed, inst, sem, file, mem, have, left, acked, stop, pend, out, seen>>
Do(s) == /\ pc[s] = "check"
         /\ LET a == have[s]
            IN IF inst[a] = "open" THEN mem' = [mem EXCEPT ![a] = @ \cup {Value(s)}] /\ To(s, "done")
               ELSE To(s, "fail") /\ UNCHANGED mem
         /\ UNCHANGED <<pm, closed, inst, am, sem, file, have, left, acked, stop, pend, out, seen>>
Unlock(s) == /\ pc[s] \in {"done", "fail"} /\ am' = [am EXCEPT ![have[s]] = Nobody]
             /\ To(s, IF pc[s] = "done" THEN "ack" ELSE "nak")
             /\ UNCHANGED <<pm, closed, inst, sem, file, mem, have, left, acked, stop, pend, out, seen>>
Answer(s) == /\ pc[s] \in {"ack", "nak"} /\ To(s, "idle") /\ left' = [left EXCEPT ![s] = @ - 1]
             /\ acked' = IF pc[s] = "ack" THEN [acked EXCEPT ![have[s]] = @ \cup {Value(s)}] ELSE acked
             /\ UNCHANGED <<pm, closed, inst, am, sem, file, mem, have, stop, pend, out, seen>>

Begin == /\ stop = "no" /\ pm = Nobody /\ pm' = Stopper /\ closed' = TRUE /\ stop' = "closing"
         /\ pend' = {a \in Archives : inst[a] = "open"}
         /\ UNCHANGED <<inst, am, sem, file, mem, pc, have, left, acked, out, seen>>
TakeOne == /\ stop = "closing" /\ pend # {} /\ \A b \in Archives : am[b] # Stopper
           /\ \E a \in pend : am[a] = Nobody /\ am' = [am EXCEPT ![a] = Stopper] /\ pend' = pend \ {a}
           /\ UNCHANGED <<pm, closed, inst, sem, file, mem, pc, have, left, acked, stop, out, seen>>
CloseOne == /\ stop = "closing"
            /\ \E a \in Archives :
                 /\ am[a] = Stopper
                 /\ file' = [file EXCEPT ![a] = mem[a]] /\ inst' = [inst EXCEPT ![a] = "closed"]
                 /\ sem' = [sem EXCEPT ![a] = "free"] /\ am' = [am EXCEPT ![a] = Nobody]
            /\ UNCHANGED <<pm, closed, mem, pc, have, left, acked, stop, pend, out, seen>>
End == /\ stop = "closing" /\ pend = {} /\ \A b \in Archives : am[b] # Stopper
       /\ stop' = "done" /\ pm' = Nobody
       /\ UNCHANGED <<closed, inst, am, sem, file, mem, pc, have, left, acked, pend, out, seen>>

(* somebody else's program wants archive 1 *)
Enter == /\ out = "wait" /\ sem[1] = "free" /\ sem' = [sem EXCEPT ![1] = "out"] /\ out' = "inside" /\ seen' = file[1]
         /\ UNCHANGED <<pm, closed, inst, am, file, mem, pc, have, left, acked, stop, pend>>
Leave == /\ out = "inside" /\ out' = "left" /\ sem' = [sem EXCEPT ![1] = "free"]
         /\ file' = [file EXCEPT ![1] = seen \cup {<<Stopper, Stopper>>}]
         /\ UNCHANGED <<pm, closed, inst, am, mem, pc, have, left, acked, stop, pend, seen>>

Act(s) == Ask(s) \/ PLock(s) \/ Look(s) \/ OLock(s) \/ Do(s) \/ Unlock(s) \/ Answer(s)
Stop == Begin \/ TakeOne \/ CloseOne \/ End
Out == Enter \/ Leave
Next == (\E s \in Sessions : Act(s)) \/ Stop \/ Out \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Fair == Spec /\ (\A s \in Sessions : SF_vars(PLock(s)) /\ SF_vars(OLock(s)) /\ WF_vars(Act(s)))
             /\ SF_vars(Begin) /\ SF_vars(TakeOne) /\ WF_vars(Stop) /\ SF_vars(Enter) /\ WF_vars(Out)

Mine == {<<Stopper, Stopper>>}
Kept == stop = "done" => \A a \in Archives : acked[a] \subseteq file[a]
NothingElse == \A a \in Archives : file[a] \subseteq acked[a] \cup Mine \cup {Value(s) : s \in {s \in Sessions : have[s] = a /\ pc[s] \in {"done", "ack"}}}
GivenUp == stop = "done" => \A a \in Archives : sem[a] # "in" /\ inst[a] # "open"
Owned == \A a \in Archives : (inst[a] = "open") = (sem[a] = "in")
(* after the shutdown only somebody else changes a file *)
Final == [][stop = "done" => \A a \in Archives : file'[a] # file[a] => (a = 1 /\ out = "inside")]_vars
Refuses == [][stop = "done" => mem' = mem]_vars
Ends == stop = "closing" ~> stop = "done"
Everybody == <>(stop = "done" /\ out = "left" /\ \A s \in Sessions : left[s] = 0)
==============================================================================
