---------------------------- MODULE AdmissionModel -----------------------------
(* How the accepting thread and the sessions share the slots, step by step,
   with trouble at every step of setting up a connection.                     *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Clients, Lim

VARIABLES pc, cur, queue, sem, ses, closes, calm
vars == <<pc, cur, queue, sem, ses, closes, calm>>

Init == pc = "accept" /\ cur = 0 /\ queue = <<>> /\ sem = Lim /\ ses = [c \in Clients |-> "away"] /\ closes = [c \in Clients |-> 0] /\ calm = FALSE

Come(c) == ses[c] = "away" /\ ses' = [ses EXCEPT ![c] = "queued"] /\ queue' = Append(queue, c) /\ UNCHANGED <<pc, cur, sem, closes, calm>>
Accept == /\ pc = "accept" /\ queue # <<>> /\ queue' = Tail(queue)
          /\ \/ cur' = Head(queue) /\ pc' = "options" /\ UNCHANGED ses
             \/ ~calm /\ ses' = [ses EXCEPT ![Head(queue)] = "refused"] /\ UNCHANGED <<pc, cur>>     \* accept fails
          /\ UNCHANGED <<sem, closes, calm>>
Options == /\ pc = "options"
           /\ \/ pc' = "slot" /\ UNCHANGED <<closes, ses>>
              \/ ~calm /\ pc' = "accept" /\ closes' = [closes EXCEPT ![cur] = @ + 1] /\ ses' = [ses EXCEPT ![cur] = "refused"]
           /\ UNCHANGED <<cur, queue, sem, calm>>
Slot == pc = "slot" /\ sem > 0 /\ sem' = sem - 1 /\ pc' = "thread" /\ UNCHANGED <<cur, queue, ses, closes, calm>>
Thread == /\ pc = "thread" /\ pc' = "gate"
          /\ \/ ses' = [ses EXCEPT ![cur] = "running"] /\ UNCHANGED <<sem, closes>>
             \/ ~calm /\ ses' = [ses EXCEPT ![cur] = "refused"] /\ closes' = [closes EXCEPT ![cur] = @ + 1] /\ sem' = sem + 1
          /\ UNCHANGED <<cur, queue, calm>>
(* waits for a free slot before the next connection is accepted *)
Gate == pc = "gate" /\ sem > 0 /\ sem' = sem - 1 /\ pc' = "back" /\ UNCHANGED <<cur, queue, ses, closes, calm>>
Back == pc = "back" /\ sem' = sem + 1 /\ pc' = "accept" /\ UNCHANGED <<cur, queue, ses, closes, calm>>

Close(c) == ses[c] = "running" /\ ses' = [ses EXCEPT ![c] = "closed"] /\ closes' = [closes EXCEPT ![c] = @ + 1] /\ UNCHANGED <<pc, cur, queue, sem, calm>>
Release(c) == ses[c] = "closed" /\ ses' = [ses EXCEPT ![c] = "over"] /\ sem' = sem + 1 /\ UNCHANGED <<pc, cur, queue, closes, calm>>
Quiet == ~calm /\ calm' = TRUE /\ UNCHANGED <<pc, cur, queue, sem, ses, closes>>

Server == Accept \/ Options \/ Slot \/ Thread \/ Gate \/ Back
Next == Server \/ Quiet \/ \E c \in Clients : Come(c) \/ Close(c) \/ Release(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Server) /\ \A c \in Clients : WF_vars(Close(c)) /\ WF_vars(Release(c))

Holding == Cardinality({c \in Clients : ses[c] \in {"running", "closed"}})
           + (IF pc \in {"thread", "back"} THEN 1 ELSE 0)
Slots == sem + Holding = Lim /\ sem >= 0
Limit == Cardinality({c \in Clients : ses[c] = "running"}) <= Lim
Once == \A c \in Clients : /\ closes[c] <= 1
                           /\ (ses[c] \in {"closed", "over"} => closes[c] = 1)
                           /\ (ses[c] \in {"away", "queued", "running"} => closes[c] = 0)
Admitted == \A c \in Clients : (ses[c] = "queued") ~> (ses[c] # "queued")
Over == \A c \in Clients : (ses[c] = "running") ~> (ses[c] = "over")
==============================================================================
