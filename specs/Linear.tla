-------------------------------- MODULE Linear --------------------------------
(* Is a concurrent history explained by some sequential order of its
   operations that respects real time?  Kept as the set of all explanations of
   the part read so far: each is a sequential state g together with the
   operations that are pending and, of those, the ones that already took effect
   (with their outcome).                                                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Apply(_, _),     \* Apply(g, call): set of [g |-> next, out |-> outcome]
          Match(_, _, _)   \* Match(call, outcome, return)

Explained(g) == {[g |-> g, p |-> [t \in {} |-> 0]]}

Invoke(C, e) ==
  {[c EXCEPT !.p = [t \in DOMAIN @ \cup {e.t} |-> IF t = e.t THEN [e |-> e] ELSE @[t]]] : c \in C}

Done(c, t) == "out" \in DOMAIN c.p[t]
(* one more pending operation takes effect *)
Effect(c) ==
  UNION {{[g |-> x.g, p |-> [c.p EXCEPT ![t] = [e |-> c.p[t].e, out |-> x.out]]] : x \in Apply(c.g, c.p[t].e)}
         : t \in {t \in DOMAIN c.p : ~Done(c, t)}}
Pending(C) == IF C = {} THEN 0 ELSE LET c == CHOOSE c \in C : TRUE IN Cardinality(DOMAIN c.p)
(* any number of them do; those that explain this return are kept *)
Effects(C) == FoldLeft(LAMBDA acc, k : acc \cup UNION {Effect(c) : c \in acc}, C, [k \in 1..Pending(C) |-> k])

Return(C, e) ==
  {[c EXCEPT !.p = [t \in DOMAIN @ \ {e.t} |-> @[t]]]
     : c \in {c \in Effects(C) : Done(c, e.t) /\ Match(c.p[e.t].e, c.p[e.t].out, e)}}

(* nothing is pending: the possible states *)
Settled(C) == {c.g : c \in C}
==============================================================================
