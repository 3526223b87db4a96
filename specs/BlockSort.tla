------------------------------ MODULE BlockSort ------------------------------
(* Block sorting (Burrows-Wheeler) and move-to-front.                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

---------------------------------------------------------- (* block sorting *)
(* A string over 0..K-1 gets the end sentinel: symbols move up by one, the
   sentinel is 0.                                                            *)
WithSentinel(s) == [p \in 1..(Len(s) + 1) |-> IF p <= Len(s) THEN s[p] + 1 ELSE 0]

RECURSIVE LexLess(_, _, _)
LexLess(t, a, b) ==   \* suffix a of t is smaller than suffix b (the sentinel is unique)
  IF t[a] # t[b] THEN t[a] < t[b]
  ELSE IF t[a] = 0 THEN FALSE
  ELSE LexLess(t, a + 1, b + 1)

Rotations(s) == LET t == WithSentinel(s)
                IN SortSeq([p \in 1..Len(t) |-> p], LAMBDA a, b : LexLess(t, a, b))

(* The last column, sentinel included.                                       *)
LastColumn(s) == LET t == WithSentinel(s)
                     r == Rotations(s)
                 IN [k \in 1..Len(t) |-> IF r[k] = 1 THEN 0 ELSE t[r[k] - 1]]

(* What the transform reports: the last column without the sentinel and the
   row (from 0) the sentinel stands in.                                      *)
SortedOutput(s) == [x \in 1..Len(s) |-> SelectSeq(LastColumn(s), LAMBDA v : v # 0)[x] - 1]
SentinelRow(s) == (CHOOSE k \in 1..(Len(s) + 1) : LastColumn(s)[k] = 0) - 1

(* The inverse, as the walk through the last-to-first mapping.  It succeeds
   only when the walk is a single cycle that meets the sentinel last; then,
   and only then, the column is the sorted last column of the string read.   *)
PutSentinel(o, ix) ==
  [p \in 1..(Len(o) + 1) |-> IF p <= ix THEN o[p] + 1 ELSE IF p = ix + 1 THEN 0 ELSE o[p - 1] + 1]

First(t) == SortSeq([p \in 1..Len(t) |-> p],
                    LAMBDA a, b : t[a] < t[b] \/ (t[a] = t[b] /\ a < b))

Walk(o, ix) ==
  LET t == PutSentinel(o, ix)
      j == First(t)
  IN FoldLeft(LAMBDA acc, x : [at |-> j[acc.at], out |-> Append(acc.out, t[j[acc.at]])],
              [at |-> ix + 1, out |-> <<>>], [x \in 1..Len(t) |-> x]).out

Unsort(o, ix) == LET w == Walk(o, ix) IN [p \in 1..Len(o) |-> w[p] - 1]
SingleCycle(o, ix) == LET w == Walk(o, ix)
                      IN w[Len(w)] = 0 /\ \A p \in 1..Len(o) : w[p] # 0

------------------------------------------------------- (* move-to-front *)
Initial(K) == [k \in 1..K |-> k - 1]
Position(l, c) == CHOOSE p \in 1..Len(l) : l[p] = c
ToFront(l, p) == <<l[p]>> \o SubSeq(l, 1, p - 1) \o SubSeq(l, p + 1, Len(l))

MtfEncode(s, K) ==
  FoldLeft(LAMBDA a, c : LET p == Position(a.l, c)
                         IN [l |-> ToFront(a.l, p), o |-> Append(a.o, p - 1)],
           [l |-> Initial(K), o |-> <<>>], s).o

MtfDecode(o, K) ==
  FoldLeft(LAMBDA a, p : [l |-> ToFront(a.l, p + 1), o |-> Append(a.o, a.l[p + 1])],
           [l |-> Initial(K), o |-> <<>>], o).o
==============================================================================
