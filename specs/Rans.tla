---------------------------------- MODULE Rans --------------------------------
(* The entropy coder for any word size.  A state is a number x in
   [L, W*L); words are digits base W; a symbol owns the slots
   bs .. bs+ls-1 of the table of 2^scale slots.                              *)
EXTENDS Integers, Sequences, SequencesExt
Upper(W, L, T, ls) == ls * (L \div T) * W
EncodeStep(x, ls, bs, W, L, T) ==
  LET emit == x >= Upper(W, L, T, ls)
      y == IF emit THEN x \div W ELSE x
  IN [x |-> (y \div ls) * T + bs + (y % ls), w |-> IF emit THEN <<x % W>> ELSE <<>>]
(* words: those still to be read, next one first *)
DecodeStep(x, words, ls, bs, W, L, T) ==
  LET y == ls * (x \div T) + (x % T) - bs
  IN IF y < L THEN [x |-> y * W + words[1], words |-> Tail(words)] ELSE [x |-> y, words |-> words]

(* The table from frequencies f: shares of T - n slots, one slot for each
   symbol, the rest dealt out from the front.                                *)
Sum(f) == FoldLeft(LAMBDA a, v : a + v, 0, f)
Shares(f, T) == LET n == Len(f)
                IN [p \in 1..n |-> 1 + ((f[p] + 1) * (T - n)) \div (Sum(f) + n)]
Table(f, T) ==
  LET n == Len(f)
      s == Shares(f, T)
      rest == T - Sum(s)
  IN [p \in 1..n |-> s[p] + rest \div n + IF p <= rest % n THEN 1 ELSE 0]
Starts(t) == [p \in 1..Len(t) |-> Sum(SubSeq(t, 1, p - 1))]
SlotOwner(t, slot) == CHOOSE p \in 1..Len(t) : Starts(t)[p] <= slot /\ slot < Starts(t)[p] + t[p]
==============================================================================
