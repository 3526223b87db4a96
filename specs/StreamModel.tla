------------------------------ MODULE StreamModel ------------------------------
(* The loop that cuts a stream into blocks and hands them to the workers, one
   after the other: the session locks its mutex, receives a block, starts a job
   and waits for the mutex, which the job unlocks when it is over.  A job may
   fail, or lose the connection while it returns the block.

   what: "encode" creates a file entry in the end; "train" replaces a coding
   state with every block that succeeds.                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Blocks, Workers

VARIABLES what, pc, todo, held, failed, gone, ids, jobs, busy, reply, file, state, seen, order
vars == <<what, pc, todo, held, failed, gone, ids, jobs, busy, reply, file, state, seen, order>>

Init == /\ what \in {"encode", "train"} /\ pc = "loop" /\ todo \in 0..Blocks /\ held = FALSE
        /\ failed = FALSE /\ gone = FALSE /\ ids = <<>> /\ jobs = <<>> /\ busy = 0
        /\ reply = "" /\ file = <<>> /\ state = <<>> /\ seen = 0 /\ order = <<>>

Lock == /\ pc = "loop" /\ todo > 0 /\ ~gone /\ ~held /\ held' = TRUE /\ pc' = "receive"
        /\ UNCHANGED <<what, todo, failed, gone, ids, jobs, busy, reply, file, state, seen, order>>
Receive == /\ pc = "receive" /\ seen' = seen + 1 /\ todo' = todo - 1
           /\ IF failed THEN held' = FALSE /\ pc' = "loop" /\ UNCHANGED <<jobs, order>>
              ELSE jobs' = Append(jobs, seen + 1) /\ order' = Append(order, seen + 1) /\ pc' = "wait" /\ UNCHANGED held
           /\ UNCHANGED <<what, failed, gone, ids, busy, reply, file, state>>
Broken == pc = "receive" /\ pc' = "end" /\ UNCHANGED <<what, todo, held, failed, gone, ids, jobs, busy, reply, file, state, seen, order>>
Wait == pc = "wait" /\ ~held /\ pc' = "loop" /\ UNCHANGED <<what, todo, held, failed, gone, ids, jobs, busy, reply, file, state, seen, order>>
Finish == /\ pc = "loop" /\ (todo = 0 \/ gone)
          /\ IF gone THEN pc' = "end" /\ UNCHANGED <<reply, file>>
             ELSE IF failed THEN pc' = "next" /\ reply' = "error" /\ UNCHANGED file
             ELSE /\ pc' = "next"
                  /\ \/ reply' = "success" /\ file' = IF what = "encode" THEN <<ids>> ELSE file
                     \/ what = "encode" /\ reply' = "error" /\ UNCHANGED file      \* the name is taken
          /\ UNCHANGED <<what, todo, held, failed, gone, ids, jobs, busy, state, seen, order>>

Take == busy < Len(jobs) /\ busy < Workers /\ busy' = busy + 1 /\ UNCHANGED <<what, pc, todo, held, failed, gone, ids, jobs, reply, file, state, seen, order>>
(* the effect of the job, then its end, which is told exactly once *)
Job == /\ busy > 0 /\ jobs # <<>> /\ jobs' = Tail(jobs) /\ busy' = busy - 1 /\ held' = FALSE
       /\ \/ /\ IF what = "encode" THEN ids' = Append(ids, Head(jobs)) /\ UNCHANGED state
                ELSE state' = Append(state, Head(jobs)) /\ UNCHANGED ids
             /\ UNCHANGED <<failed, gone>>
          \/ failed' = TRUE /\ UNCHANGED <<ids, state, gone>>
          \/ what = "encode" /\ failed' = TRUE /\ gone' = TRUE /\ ids' = Append(ids, Head(jobs)) /\ UNCHANGED state
       /\ UNCHANGED <<what, pc, todo, reply, file, seen, order>>
Next == Lock \/ Receive \/ Broken \/ Wait \/ Finish \/ Take \/ Job
Spec == Init /\ [][Next]_vars /\ WF_vars(Lock \/ Receive \/ Wait \/ Finish) /\ WF_vars(Take \/ Job)

Count(n) == [k \in 1..n |-> k]
OneAtATime == Len(jobs) <= 1 /\ busy <= 1 /\ (pc = "receive" => jobs = <<>>)
Success == reply = "success" => /\ ~failed /\ seen + todo = seen
                                /\ (what = "encode" => file = <<Count(seen)>>)
                                /\ (what = "train" => state = Count(seen))
Failure == (reply # "success" => file = <<>>) /\ (failed /\ pc = "next" => reply = "error")
(* after an error reply the whole stream has been read *)
InStep == pc = "next" => todo = 0
(* nothing is done after a failure *)
Stops == failed => IsPrefix(ids \o state, Count(seen)) /\ Len(order) - Len(ids \o state) <= 1
Ends == <>(pc \in {"next", "end"})
==============================================================================
