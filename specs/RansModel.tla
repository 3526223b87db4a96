------------------------------- MODULE RansModel ------------------------------
(* Exhaustive for a small word: any symbols with any tables (they may change
   from symbol to symbol) are decoded in reverse order, the state returns to
   where it started, and stays in range.                                     *)
EXTENDS Rans, TLC
CONSTANTS W, L, T, MaxLen, Syms
VARIABLES x, words, hist
vars == <<x, words, hist>>
(* All tables of Syms symbols with T slots, each with at least one. *)
Tables == {t \in [1..Syms -> 1..T] : Sum(t) = T}
Init == x = L /\ words = <<>> /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E t \in Tables, s \in 1..Syms :
             LET r == EncodeStep(x, t[s], Starts(t)[s], W, L, T)
             IN x' = r.x /\ words' = r.w \o words /\ hist' = Append(hist, [t |-> t, s |-> s, x |-> x])
Spec == Init /\ [][Next]_vars
InRange == x >= L /\ x < W * L
RECURSIVE Undo(_, _, _)
Undo(y, ws, h) ==
  IF h = <<>> THEN y = L /\ ws = <<>>
  ELSE LET e == h[Len(h)]
           s == SlotOwner(e.t, y % T)
           r == DecodeStep(y, ws, e.t[s], Starts(e.t)[s], W, L, T)
       IN s = e.s /\ r.x = e.x /\ Undo(r.x, r.words, SubSeq(h, 1, Len(h) - 1))
Inverts == Undo(x, words, hist)
==============================================================================
