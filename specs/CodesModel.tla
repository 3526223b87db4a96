------------------------------ MODULE CodesModel ------------------------------
(* Every concatenation of up to MaxLen codes is read back value by value.    *)
EXTENDS Codes, TLC
CONSTANTS MaxV, MaxLen
VARIABLES vals, eg, un
Init == vals = <<>> /\ eg = <<>> /\ un = <<>>
Next == Len(vals) < MaxLen /\ \E v \in 0..MaxV :
          /\ vals' = Append(vals, v) /\ eg' = eg \o EliasGamma(v)
          /\ un' = un \o Unary(v + 1)
Spec == Init /\ [][Next]_<<vals, eg, un>>
RECURSIVE ReadAll(_, _, _)
ReadAll(b, n, which) == IF n = 0 THEN IF b = <<>> THEN <<>> ELSE <<"rest">>
  ELSE LET r == IF which = "eg" THEN ReadEliasGamma(b) ELSE ReadUnary(b)
       IN <<r.v>> \o ReadAll(SubSeq(b, r.n + 1, Len(b)), n - 1, which)
EliasGammaConcatenates == ReadAll(eg, Len(vals), "eg") = vals
UnaryConcatenates == ReadAll(un, Len(vals), "un") = [p \in 1..Len(vals) |-> vals[p] + 1]
==============================================================================
