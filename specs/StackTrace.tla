------------------------------ MODULE StackTrace ------------------------------
EXTENDS TraceBase, Stack
P == {"C28"}
Start == <<>>
Check(s, e) ==
  Need(e.size = Size(s), "stack: size", P)
  \cup Need(e.e = (Size(s) = 0), "stack: empty", P)
  \cup Need((Size(s) > 0 /\ ~e.e) => e.top = Top(s), "stack: top is not the last value pushed", P)
After(s, e) == CASE e.k = "push" -> PushRun(s, e.v, e.n) [] e.k = "pop" -> PopRun(s, e.n)
DoStep(s, e) ==
  IF e.k = "snew" THEN [st |-> <<>>, bad |-> {}]
  ELSE LET t == After(s, e) IN [st |-> t, bad |-> Check(t, e)]
==============================================================================
