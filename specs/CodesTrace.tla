------------------------------ MODULE CodesTrace ------------------------------
EXTENDS TraceBase, Codes
P == {"C27"}
Start == 0
Ends(lens) == FoldLeft(LAMBDA acc, x : Append(acc, x + IF acc = <<>> THEN 0 ELSE acc[Len(acc)]), <<>>, lens)
Eg(e) ==
  IF Has(e, "exc") THEN Need(FALSE, "Elias-gamma: throws", P)
  ELSE Need(e.v = e.a, "Elias-gamma: decoded values", P)
    \cup Need(e.p = e.e, "Elias-gamma: the reader is not behind the last bit", P)
    \cup Need(e.bytes = (e.e[Len(e.e)] + 7) \div 8, "Elias-gamma: packed length", P)
Un(e) ==
  Need(~e.bad, "unary: does not terminate", P)
  \cup (IF e.bad THEN {} ELSE
        Need(e.v = e.a, "unary: decoded values", P) \cup Need(e.p = e.e, "unary: the reader is not behind the last bit", P))
B32(e) ==
  IF Has(e, "exc") THEN Need(FALSE, "bytes to words: throws", P)
  ELSE LET n == Len(e.a)
       IN Need(Len(e.v) >= n /\ Len(e.v) < n + 4 /\ \A p \in 1..Len(e.v) : e.v[p] = IF p <= n THEN e.a[p] ELSE 0,
               "bytes to words: bytes are lost", P)
DoStep(s, e) == [st |-> s, bad |->
  CASE e.k = "eg" -> Eg(e)
    [] e.k = "un" -> Un(e)
    [] e.k = "w64" -> Need(e.v = e.a, "64-bit word through bytes", P)
    [] e.k = "w32" -> Need(e.v = e.a /\ e.n8 = 4 * Len(e.a) /\ e.n32 = Len(e.a), "32-bit words through bytes", P)
    [] e.k = "b32" -> B32(e)
    [] e.k = "pmap" -> Need(~Has(e, "exc") /\ Has(e, "v") /\ e.v = e.a, "parameter map through bytes", P)]
==============================================================================
