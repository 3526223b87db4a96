----------------------------- MODULE ZigZagModel -----------------------------
(* For every rectangle up to Max x Max: the scan visits every cell exactly
   once, anti-diagonal by anti-diagonal in alternating direction, and ends.  *)
EXTENDS ZigZag, TLC
CONSTANT Max
VARIABLES w, h, cell, seen
vars == <<w, h, cell, seen>>
Init == w \in 0..Max /\ h \in 0..Max /\ cell = FirstCell(w, h) /\ seen = {}
Next == cell # Done /\ cell' = NextCell(w, h, cell) /\ seen' = seen \cup {cell} /\ UNCHANGED <<w, h>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Cells == (0..(w - 1)) \X (0..(h - 1))
Fresh == cell # Done => cell \in Cells \ seen
Covers == cell = Done => seen = Cells
Diagonals == cell # Done => \A c \in seen : c[1] + c[2] <= cell[1] + cell[2]
Direction == cell # Done => \A c \in seen : (c[1] + c[2] = cell[1] + cell[2]) =>
               IF (c[1] + c[2]) % 2 = 0 THEN c[1] < cell[1] ELSE c[1] > cell[1]
SecondIsRight == (Cardinality(seen) = 1 /\ w > 1) => cell = <<1, 0>>
Ends == <>(cell = Done)
==============================================================================
