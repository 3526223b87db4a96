--------------------------------- MODULE Codes --------------------------------
(* Prefix codes over bits, as sequences of 0 and 1.                          *)
EXTENDS Integers, Sequences, SequencesExt
Ones(n) == [p \in 1..n |-> 1]
BitsOf(v, n) == [p \in 1..n |-> (v \div 2 ^ (n - p)) % 2]
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
(* A length in unary, a zero, then the number. *)
EliasGamma(n) == IF n = 0 THEN <<0>> ELSE LET w == 1 + Log2(n) IN Ones(w) \o <<0>> \o BitsOf(n, w)
Unary(n) == Ones(n - 1) \o <<0>>

Zeroes(b) == CHOOSE p \in 1..Len(b) : b[p] = 0 /\ \A q \in 1..(p - 1) : b[q] = 1
Value(b) == FoldLeft(LAMBDA a, x : 2 * a + x, 0, b)
(* Readers: value and number of bits consumed. *)
ReadEliasGamma(b) == LET z == Zeroes(b) IN [v |-> Value(SubSeq(b, z + 1, 2 * z - 1)), n |-> 2 * z - 1]
ReadUnary(b) == LET z == Zeroes(b) IN [v |-> z, n |-> z]
==============================================================================
