-------------------------------- MODULE ZigZag --------------------------------
(* The zig-zag scan of a w x h rectangle as a transition system on cells.    *)
EXTENDS Integers, Sequences, FiniteSets
Done == <<-1, -1>>
(* Along an even anti-diagonal the scan moves right and up, along an odd one
   left and down; at the border it steps to the next anti-diagonal.          *)
NextCell(w, h, c) ==
  LET x == c[1]
      y == c[2]
  IN IF x = w - 1 /\ y = h - 1 THEN Done
     ELSE IF (x + y) % 2 = 0
          THEN IF x < w - 1 /\ y > 0 THEN <<x + 1, y - 1>>
               ELSE IF x < w - 1 THEN <<x + 1, y>> ELSE <<x, y + 1>>
          ELSE IF x > 0 /\ y < h - 1 THEN <<x - 1, y + 1>>
               ELSE IF y < h - 1 THEN <<x, y + 1>> ELSE <<x + 1, y>>
FirstCell(w, h) == IF w = 0 \/ h = 0 THEN Done ELSE <<0, 0>>
==============================================================================
