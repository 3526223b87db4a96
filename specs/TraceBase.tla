------------------------------ MODULE TraceBase ------------------------------
(* Checks a recorded behaviour of the real code, one JSON object per line,
   against a specification given as a transition function

       Step(state, event) = [st |-> next state, bad |-> violated clauses]

   A clause is a record [c |-> what, p |-> the properties it belongs to].  A
   violated clause of the property under check stops the run with bad # {};
   one that belongs to other properties only ends the comparison quietly (the
   lines up to the next line with "restart" count as lost), because from there
   on the recorded and the specified state differ for a reason this property
   does not own.  Lines marked "all" repeat an accepted history with one
   addition (a reopening, a failing operation); there every difference belongs
   to the property under check, except clauses marked "not <property>".      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Step(_, _), State0

VARIABLES i, st, bad, lost, skip
vars == <<i, st, bad, lost, skip>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Prop == IOEnv.PROP

Everyone == {"*"}
Need(cond, c, p) == IF cond THEN {} ELSE {[c |-> c, p |-> p]}
Has(e, f) == f \in DOMAIN e

(* Kinds of line every trace may contain. *)
Common(e) ==
  CASE e.k = "crash" -> {[c |-> "the code crashed or did not finish", p |-> Everyone]}
    [] e.k = "exc"   -> {[c |-> "unexpected exception", p |-> Everyone]}
    [] OTHER         -> {}

Verdict(s, e) ==
  IF e.k \in {"crash", "exc"} THEN [st |-> s, bad |-> Common(e)]
  ELSE IF e.k = "end" THEN [st |-> s, bad |-> {}]
  ELSE Step(s, e)

Mine(b, e) == {x \in b : \/ Prop \in x.p
                         \/ "*" \in x.p
                         \/ (Has(e, "all") /\ ("not " \o Prop) \notin x.p)}

Init == i = 1 /\ st = State0 /\ bad = {} /\ lost = 0 /\ skip = FALSE

(* The bounded quantifiers bind values that are computed once; TLC would
   compute a LET definition again at every use. *)
Compare(s, e) ==
  \E v \in {Verdict(s, e)} :
  \E m \in {Mine(v.bad, e)} :
     IF m # {} THEN bad' = {x.c : x \in m} /\ UNCHANGED <<st, lost, skip>>
     ELSE IF v.bad # {} THEN lost' = lost + 1 /\ skip' = TRUE /\ UNCHANGED <<st, bad>>
     ELSE st' = v.st /\ skip' = FALSE /\ UNCHANGED <<bad, lost>>

Consume ==
  /\ i <= N /\ bad = {}
  /\ i' = i + 1
  /\ LET e == Trace[i]
     IN IF Has(e, "restart") THEN Compare(State0, e)
        ELSE IF skip THEN lost' = lost + 1 /\ UNCHANGED <<st, bad, skip>>
        ELSE Compare(st, e)

Kinds == {Trace[j].k : j \in 1..N}
Coverage == [k \in Kinds |-> Cardinality({j \in 1..N : Trace[j].k = k})]
Complete == N > 0 /\ Trace[N].k \in {"end", "crash"}

Finish ==
  /\ i = N + 1 /\ bad = {}
  /\ PrintT(<<"RESULT", ToJson([n |-> N, lost |-> lost, complete |-> Complete, cov |-> Coverage])>>)
  /\ i' = N + 2 /\ UNCHANGED <<st, bad, lost, skip>>

Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars

NothingBroken == bad = {}

(* What TLC prints of a violation: writing out the states can take longer than finding it. *)
Shown == [i |-> i, bad |-> bad]
==============================================================================
