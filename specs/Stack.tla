--------------------------------- MODULE Stack --------------------------------
(* A stack of consecutive numbers, run-length encoded as <<first, count>>, so
   that depths of hundreds of thousands stay small.                          *)
EXTENDS Integers, Sequences, SequencesExt
Empty == <<>>
Size(s) == FoldLeft(LAMBDA a, r : a + r[2], 0, s)
Top(s) == LET r == s[Len(s)] IN r[1] + r[2] - 1
PushRun(s, v, n) ==
  IF n = 0 THEN s
  ELSE IF s # <<>> /\ Top(s) = v - 1 THEN [s EXCEPT ![Len(s)] = <<@[1], @[2] + n>>]
  ELSE Append(s, <<v, n>>)
RECURSIVE PopRun(_, _)
PopRun(s, n) ==
  IF n = 0 \/ s = <<>> THEN s
  ELSE LET r == s[Len(s)]
       IN IF r[2] > n THEN [s EXCEPT ![Len(s)] = <<r[1], r[2] - n>>]
          ELSE PopRun(SubSeq(s, 1, Len(s) - 1), n - r[2])
==============================================================================
