---------------------------- MODULE SemaphoreModel ----------------------------
(* The semaphore built from a mutex, a condition variable and a counter, for
   all programs of a few threads and all schedules, with spurious wake-ups.    *)
EXTENDS Semaphore, TLC

CONSTANTS T,         \* number of threads
          MaxOps,    \* operations of one thread
          MaxInit

VARIABLES count, owner, sleeping, pc, todo, init, acquired, released, started, spur
vars == <<count, owner, sleeping, pc, todo, init, acquired, released, started, spur>>

Threads == 1..T
Programs == UNION {[1..k -> {"a", "r"}] : k \in 1..MaxOps}
Nobody == 0

Init ==
  /\ init \in 0..MaxInit /\ count = init
  /\ owner = Nobody /\ sleeping = {}
  /\ pc = [t \in Threads |-> "idle"]
  /\ todo \in [Threads -> Programs]
  /\ acquired = 0 /\ released = 0 /\ started = 0 /\ spur = 0

At(t, l) == pc' = [pc EXCEPT ![t] = l]
Start(t) ==
  /\ pc[t] = "idle" /\ todo[t] # <<>>
  /\ At(t, IF Head(todo[t]) = "a" THEN "acq" ELSE "rel")
  /\ todo' = [todo EXCEPT ![t] = Tail(@)]
  /\ started' = started + (IF Head(todo[t]) = "r" THEN 1 ELSE 0)
  /\ UNCHANGED <<count, owner, sleeping, init, acquired, released, spur>>
Lock(t, from, to) ==
  /\ pc[t] = from /\ owner = Nobody /\ owner' = t /\ At(t, to)
  /\ UNCHANGED <<count, sleeping, todo, init, acquired, released, started, spur>>
(* the predicate is tested with the mutex held *)
Test(t) ==
  /\ pc[t] = "test"
  /\ IF count > 0
     THEN /\ count' = count - 1 /\ At(t, "acqout") /\ UNCHANGED <<owner, sleeping>>
     ELSE /\ At(t, "asleep") /\ sleeping' = sleeping \cup {t} /\ owner' = Nobody /\ UNCHANGED count
  /\ UNCHANGED <<todo, init, acquired, released, started, spur>>
Awake(t) ==
  /\ pc[t] = "asleep" /\ t \notin sleeping /\ At(t, "acq")
  /\ UNCHANGED <<count, owner, sleeping, todo, init, acquired, released, started, spur>>
Spurious(t) ==
  /\ t \in sleeping /\ spur < 1 /\ spur' = spur + 1 /\ sleeping' = sleeping \ {t}
  /\ UNCHANGED <<count, owner, pc, todo, init, acquired, released, started>>
AcqOut(t) ==
  /\ pc[t] = "acqout" /\ owner' = Nobody /\ At(t, "idle") /\ acquired' = acquired + 1
  /\ UNCHANGED <<count, sleeping, todo, init, released, started, spur>>
Raise(t) ==
  /\ pc[t] = "inc" /\ count' = count + 1 /\ At(t, "tell")
  /\ UNCHANGED <<owner, sleeping, todo, init, acquired, released, started, spur>>
Tell(t) ==
  /\ pc[t] = "tell" /\ sleeping' = {} /\ At(t, "relout")
  /\ UNCHANGED <<count, owner, todo, init, acquired, released, started, spur>>
RelOut(t) ==
  /\ pc[t] = "relout" /\ owner' = Nobody /\ At(t, "idle") /\ released' = released + 1
  /\ UNCHANGED <<count, sleeping, todo, init, acquired, started, spur>>

Moves(t) == Start(t) \/ Lock(t, "acq", "test") \/ Lock(t, "rel", "inc") \/ Test(t) \/ Awake(t)
            \/ AcqOut(t) \/ Raise(t) \/ Tell(t) \/ RelOut(t)
Next == \E t \in Threads : Moves(t) \/ Spurious(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Moves(t))

------------------------------------------------------------------------------
Waiting == {t \in Threads : pc[t] \in {"acq", "test", "asleep"}}
Releasing == {t \in Threads : pc[t] \in {"rel", "inc", "tell", "relout"}}
OverAdmission == NeverOverAdmits(init, acquired, started)
Permits == count >= 0
Mutual == Cardinality({t \in Threads : pc[t] \in {"test", "acqout", "inc", "tell", "relout"}}) <= 1
Still == \A t \in Threads : ~ENABLED Moves(t)
Forgotten == Still => NobodyForgotten(init, acquired, released, Waiting, Releasing)
Settles == <>[](Still)
==============================================================================
