---------------------------- MODULE BlockSortModel ----------------------------
(* Exhaustive: a string is built symbol by symbol; in every state both
   transforms invert and the walk characterises the sorted column.          *)
EXTENDS BlockSort
CONSTANTS K, MaxLen
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in 0..(K - 1) : s' = Append(s, c)
Spec == Init /\ [][Next]_s
InverseOfSort == Unsort(SortedOutput(s), SentinelRow(s)) = s /\ SingleCycle(SortedOutput(s), SentinelRow(s))
(* No other column/row pair passes the single-cycle test and reads as s. *)
OnlyTheSortedColumn ==
  Len(s) > 4 \/ \A ix \in 0..Len(s) : \A o \in [1..Len(s) -> 0..(K - 1)] :
    (SingleCycle(o, ix) /\ Unsort(o, ix) = s) => (o = SortedOutput(s) /\ ix = SentinelRow(s))
InverseOfMtf == MtfDecode(MtfEncode(s, K), K) = s
FrontIsZero == \A p \in 2..Len(s) : (s[p] = s[p - 1]) => MtfEncode(s, K)[p] = 0
==============================================================================
