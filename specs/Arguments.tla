------------------------------- MODULE Arguments ------------------------------
(* What counts as a path, as bytes; and sizes with a unit.                   *)
EXTENDS Integers, Sequences
Slash == 47
Forbidden == {0, 92, 32}   \* NUL, backslash, space
ValidPath(b) ==
  /\ Len(b) > 0 /\ b[1] = Slash
  /\ \A p \in 1..Len(b) : b[p] \notin Forbidden
  /\ \A p \in 1..(Len(b) - 1) : ~(b[p] = Slash /\ b[p + 1] = Slash)
UnitShift(u) == CASE u = "b" -> 0 [] u = "kb" -> 10 [] u = "mb" -> 20 [] u = "gb" -> 30
(* The same language as an automaton: start, after a slash, inside a name. *)
PathNext(q, c) ==
  CASE q = "start" -> IF c = Slash THEN "slash" ELSE "no"
    [] q = "slash" -> IF c = Slash \/ c \in Forbidden THEN "no" ELSE "name"
    [] q = "name"  -> IF c \in Forbidden THEN "no" ELSE IF c = Slash THEN "slash" ELSE "name"
    [] q = "no"    -> "no"
Accepting == {"slash", "name"}
==============================================================================
