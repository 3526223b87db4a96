---------------------------- MODULE ArgumentsModel ----------------------------
EXTENDS Arguments, TLC
CONSTANT MaxLen
VARIABLES s, q
Init == s = <<>> /\ q = "start"
Next == Len(s) < MaxLen /\ \E c \in {47, 92, 32, 0, 97} : s' = Append(s, c) /\ q' = PathNext(q, c)
Spec == Init /\ [][Next]_<<s, q>>
SameLanguage == ValidPath(s) <=> q \in Accepting
==============================================================================
