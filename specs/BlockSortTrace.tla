---------------------------- MODULE BlockSortTrace ----------------------------
(* Recorded block-sorting and move-to-front calls against BlockSort.        *)
EXTENDS TraceBase, BlockSort
P == {"C21"}
Start == 0

Bwt(e) ==
  IF Has(e, "exc") THEN Need(FALSE, "bwt throws", P)
  ELSE Need(e.ix >= 0 /\ e.ix <= e.n, "index outside the rotations", P)
    \cup (IF Has(e, "sd")
          THEN Need(e.sd = e.vd, "bwt: inverse does not restore the string", P)
               \cup Need(e.ms = e.mo, "bwt: output is not a permutation of the string", P)
          ELSE Need(e.v = e.s, "bwt: inverse does not restore the string", P)
               \cup Need(/\ Len(e.o) = Len(e.s)
                         /\ \A p \in 1..Len(e.o) : e.o[p] \in 0..(e.a - 1), "bwt: output outside the alphabet", P)
               \cup IF e.ix < 0 \/ e.ix > Len(e.o) THEN {} ELSE
                    Need(SingleCycle(e.o, e.ix) /\ Unsort(e.o, e.ix) = e.s,
                         "bwt: output is not the last column of the sorted rotations", P)
               \cup IF Len(e.s) > 10 THEN {} ELSE
                    Need(SortedOutput(e.s) = e.o /\ SentinelRow(e.s) = e.ix,
                         "bwt: output differs from the sorted rotations", P))

Mtf(e) ==
  IF Has(e, "exc") THEN Need(FALSE, "mtf throws", P)
  ELSE Need(e.v = e.s /\ e.v2 = e.s, "mtf: inverse does not restore the sequence", P)
    \cup Need(e.o2 = e.o, "mtf: second transform by the same object differs", P)
    \cup Need(e.o = MtfEncode(e.s, e.a), "mtf: output is not the recency position", P)

(* A symbol that is met again: its position is the number of others since. *)
Met(w, p) == {x \in 1..(p - 1) : w.s[x] = w.s[p]}
Since(w, p) == LET l == CHOOSE x \in Met(w, p) : \A y \in Met(w, p) : y <= x
               IN Cardinality({w.s[x] : x \in (l + 1)..(p - 1)})
Mtfl(e) ==
  IF Has(e, "exc") THEN Need(FALSE, "mtf throws", P)
  ELSE Need(e.vd = e.sd, "mtf: inverse does not restore the sequence", P)
    \cup Need(\A k \in 1..Len(e.at) : LET w == e.at[k]
                 IN \A p \in 1..Len(w.s) : Met(w, p) # {} => w.o[p] = Since(w, p), "mtf: output is not the recency position", P)

DoStep(s, e) == [st |-> s, bad |-> CASE e.k = "bwt" -> Bwt(e) [] e.k = "mtf" -> Mtf(e) [] e.k = "mtfl" -> Mtfl(e)]
==============================================================================
