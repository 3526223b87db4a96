----------------------------- MODULE ProgramsModel -----------------------------
(* The two providers with their two mutexes, D (devices) and P (programs), step
   by step: loading and filtering take D and then, several times, P; registering
   takes both; a request takes P only.                                         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS T, MaxDevs, Ops

VARIABLES D, P, devs, locks, built, at, count, gen, pc, op, new, left
vars == <<D, P, devs, locks, built, at, count, gen, pc, op, new, left>>
Threads == 1..T
Nobody == 0
(* devs: devices in use; locks: [n, gen] the locks; built: [n, gen] the one
   program that can be registered (n = 0: none)                                *)
None == [n |-> 0, gen |-> 0]
Init ==
  /\ D = Nobody /\ P = Nobody /\ devs = 0 /\ locks = None /\ built = None
  /\ at = 0 /\ count = 0 /\ gen = 0
  /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> "none"]
  /\ new = [t \in Threads |-> 0] /\ left = Ops
At(t, l) == pc' = [pc EXCEPT ![t] = l]
Same(S) == UNCHANGED S

Begin(t) ==
  /\ pc[t] = "idle" /\ left > 0 /\ left' = left - 1
  /\ \E o \in {"load", "filter", "register", "get"}, n \in 0..MaxDevs :
       /\ o \in {"register", "get"} => n = 0
       /\ op' = [op EXCEPT ![t] = o] /\ new' = [new EXCEPT ![t] = n]
       /\ At(t, IF o = "get" THEN "wantP" ELSE "wantD")
  /\ Same(<<D, P, devs, locks, built, at, count, gen>>)
TakeD(t) ==
  /\ pc[t] = "wantD" /\ D = Nobody /\ D' = t
  /\ At(t, CASE op[t] = "load" -> "clear" [] op[t] = "filter" -> (IF devs = 0 THEN "dropD" ELSE "choose") [] OTHER -> "wantP")
  /\ Same(<<P, devs, locks, built, at, count, gen, op, new, left>>)
(* filter: fewer devices, then clear; load: clear, then devices and locks *)
Choose(t) ==
  /\ pc[t] = "choose" /\ devs' = (IF new[t] < devs THEN new[t] ELSE devs) /\ At(t, "clear")
  /\ Same(<<D, P, locks, built, at, count, gen, op, new, left>>)
Clear(t) ==   \* with P, released again
  /\ pc[t] = "clear" /\ P = Nobody /\ built' = None
  /\ At(t, IF op[t] = "load" THEN "replace" ELSE "count")
  /\ Same(<<D, P, devs, locks, at, count, gen, op, new, left>>)
Replace(t) ==
  /\ pc[t] = "replace" /\ devs' = new[t] /\ gen' = gen + 1
  /\ locks' = [n |-> new[t], gen |-> gen + 1] /\ At(t, "count")
  /\ Same(<<D, P, built, at, count, op, new, left>>)
Count(t) ==
  /\ pc[t] = "count" /\ P = Nobody /\ count' = devs /\ at' = 0 /\ At(t, "dropD")
  /\ Same(<<D, P, devs, locks, built, gen, op, new, left>>)
DropD(t) ==
  /\ pc[t] = "dropD" /\ D' = Nobody /\ At(t, "idle")
  /\ Same(<<P, devs, locks, built, at, count, gen, op, new, left>>)
TakeP(t) ==
  /\ pc[t] = "wantP" /\ P = Nobody /\ P' = t /\ At(t, op[t])
  /\ Same(<<D, devs, locks, built, at, count, gen, op, new, left>>)
DoRegister(t) ==
  /\ pc[t] = "register" /\ P' = Nobody /\ At(t, "dropD")
  /\ built' = (IF built.n > 0 \/ devs = 0 THEN built ELSE [n |-> devs, gen |-> locks.gen])
  /\ Same(<<D, devs, locks, at, count, gen, op, new, left>>)
DoGet(t) ==
  /\ pc[t] = "get" /\ P' = Nobody /\ At(t, "idle")
  /\ at' = (IF built.n = 0 THEN at ELSE (at + 1) % count)
  /\ Same(<<D, devs, locks, built, count, gen, op, new, left>>)

Step(t) == Begin(t) \/ TakeD(t) \/ Choose(t) \/ Clear(t) \/ Replace(t) \/ Count(t) \/ DropD(t) \/ TakeP(t) \/ DoRegister(t) \/ DoGet(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars

NobodyStuck == (~ENABLED Next) => \A t \in Threads : pc[t] = "idle"
Answering == {t \in Threads : pc[t] = "get" /\ built.n > 0}
InRange == \A t \in Answering : at < built.n /\ at < locks.n /\ count > 0
OwnLock == \A t \in Answering : built.gen = locks.gen
==============================================================================
