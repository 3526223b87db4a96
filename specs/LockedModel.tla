------------------------------ MODULE LockedModel ------------------------------
(* Operations made of several steps under one mutex are linearizable and leave
   the mutex free, also when they fail half-way: a map with put (refused when
   taken), take (refused when absent) and look, each reading and writing in
   separate steps.  The explanations kept by Linear are never exhausted.       *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS T, Keys, MaxOps

VARIABLES store, owner, pc, cur, tmp, left, C
vars == <<store, owner, pc, cur, tmp, left, C>>
Threads == 1..T
Nobody == 0

Spec1(g, e) ==
  CASE e.op = "put" -> IF e.key \in g THEN {[g |-> g, out |-> "err"]} ELSE {[g |-> g \cup {e.key}, out |-> "ok"]}
    [] e.op = "take" -> IF e.key \in g THEN {[g |-> g \ {e.key}, out |-> "ok"]} ELSE {[g |-> g, out |-> "err"]}
    [] e.op = "look" -> {[g |-> g, out |-> IF e.key \in g THEN "yes" ELSE "no"]}
Equal(call, out, r) == r.r = out
L == INSTANCE Linear WITH Apply <- Spec1, Match <- Equal

Init == /\ store = {} /\ owner = Nobody /\ pc = [t \in Threads |-> "idle"]
        /\ cur = [t \in Threads |-> [t |-> t, op |-> "look", key |-> CHOOSE k \in Keys : TRUE]]
        /\ tmp = [t \in Threads |-> "no"] /\ left = [t \in Threads |-> MaxOps]
        /\ C = L!Explained({})
At(t, l) == pc' = [pc EXCEPT ![t] = l]
Call(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ \E o \in {"put", "take", "look"}, k \in Keys :
                LET e == [t |-> t, op |-> o, key |-> k]
                IN cur' = [cur EXCEPT ![t] = e] /\ C' = L!Invoke(C, e)
           /\ At(t, "lock") /\ UNCHANGED <<store, owner, tmp>>
Lock(t) == pc[t] = "lock" /\ owner = Nobody /\ owner' = t /\ At(t, "read") /\ UNCHANGED <<store, cur, tmp, left, C>>
Read(t) == /\ pc[t] = "read"
           /\ LET there == cur[t].key \in store
              IN tmp' = [tmp EXCEPT ![t] = CASE cur[t].op = "look" -> (IF there THEN "yes" ELSE "no")
                                             [] cur[t].op = "put" -> (IF there THEN "err" ELSE "ok")
                                             [] OTHER -> (IF there THEN "ok" ELSE "err")]
           /\ At(t, "write") /\ UNCHANGED <<store, owner, cur, left, C>>
Write(t) == /\ pc[t] = "write" /\ At(t, "unlock")
            /\ store' = (IF tmp[t] # "ok" THEN store
                         ELSE IF cur[t].op = "put" THEN store \cup {cur[t].key} ELSE store \ {cur[t].key})
            /\ UNCHANGED <<owner, cur, tmp, left, C>>
Unlock(t) == pc[t] = "unlock" /\ owner' = Nobody /\ At(t, "return") /\ UNCHANGED <<store, cur, tmp, left, C>>
Ret(t) == /\ pc[t] = "return" /\ C' = L!Return(C, [t |-> t, r |-> tmp[t]]) /\ At(t, "idle")
          /\ UNCHANGED <<store, owner, cur, tmp, left>>
Step(t) == Call(t) \/ Lock(t) \/ Read(t) \/ Write(t) \/ Unlock(t) \/ Ret(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars

Linearizable == C # {}
NobodyStuck == (~ENABLED Next) => \A t \in Threads : pc[t] = "idle"
EndsRight == (\A t \in Threads : pc[t] = "idle") => store \in L!Settled(C)
==============================================================================
