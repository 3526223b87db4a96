------------------------------- MODULE RansTrace ------------------------------
(* Recorded coder steps, with 64-bit states as base 2^15 digits: the relation
   of Rans with W = 2^32, L = 2^31, checked by multiplication only.          *)
EXTENDS TraceBase, Words, Rans
P == {"C20"}
Start == [scale |-> 0, x |-> <<0>>, hist |-> <<>>, words |-> <<>>, cnt |-> 0, phase |-> "none"]
Lower == Shl(<<1>>, 31)
TopOfRange == Shl(<<1>>, 63)
SumBig(f) == FoldLeft(LAMBDA a, v : Fit(Add(a, OfInt(v)), 5), Zero(5), f)

(* [v, w, ok]: the step from x to y for the slots bs, ls *)
EncodeOK(x, y, em, w, ls, bs, scale) ==
  LET must == LessEq(Mul(ls, Shl(<<1>>, 63 - scale)), x)
      rest == IF must THEN Shr(x, 32) ELSE x
      slot == Low(y, scale)
      q == Shr(y, scale)
  IN /\ em = (IF must THEN 1 ELSE 0)
     /\ must => Same(w, Low(x, 32))
     /\ LessEq(bs, slot) /\ Less(slot, Add(bs, ls))
     /\ Same(Add(Mul(q, ls), Sub(slot, bs)), rest)

Ft(e) ==
  LET n == Len(e.f)
      big == \E p \in 1..n : e.t[p] < 0
  IN Need(~big, "table: entry out of range", P)
     \cup (IF big THEN {} ELSE
       Need(Same(SumBig(e.t), Shl(<<1>>, e.scale)), "table: entries do not add up to the table size", P)
       \cup Need(\A p \in 1..n : e.t[p] >= 1, "table: a symbol has no slot", P)
       \cup Need(\A p, q \in 1..n : e.f[p] >= e.f[q] => e.t[p] >= e.t[q] - n, "table: a more frequent symbol has the smaller share", P)
       \cup Need(\A p \in 1..n : e.c[p] = Sum(SubSeq(e.t, 1, p - 1)), "table: first slot of a symbol", P)
       \cup Need(\A p \in 1..n : e.i[2 * p - 1] = p - 1 /\ e.i[2 * p] = p - 1, "table: slot leads to another symbol", P))

DoStep(s, e) ==
  CASE e.k = "ft" -> [st |-> s, bad |-> Ft(e)]
    [] e.k = "codec" -> [st |-> s, bad |->
         IF Has(e, "exc") THEN Need(FALSE, "coder object throws", P)
         ELSE Need(e.v = e.s, "coder objects: decoded symbols", P) \cup Need(e.on = e.n, "coder objects: number of symbols", P)
              \cup Need(LessEq(Lower, e.lo) /\ Less(e.hi, TopOfRange), "coder objects: state out of range", P)
              \cup Need(e.words = e.size, "coder objects: number of words", P)]
    [] e.k = "step" -> [st |-> s, bad |->
         IF Has(e, "exc") THEN Need(FALSE, "coder: a step throws", P)
         ELSE Need(EncodeOK(e.x, e.y, e.em, e.w, e.ls, e.bs, e.scale), "coder: encoding step", P)
              \cup Need(LessEq(Lower, e.y) /\ Less(e.y, TopOfRange), "coder: state out of range", P)
              \cup Need(e.cnt = e.em /\ e.used = e.em, "coder: number of words of a step", P)
              \cup Need(Same(e.z, e.x), "coder: decoding does not undo the encoding step", P)]
    [] e.k = "rnew" -> [st |-> [scale |-> e.scale, x |-> e.x, hist |-> <<>>, words |-> <<>>, cnt |-> 0, phase |-> "enc"],
                        bad |-> Need(Same(e.x, Lower), "coder: initial state", P)]
    [] e.k = "enc" -> [st |-> [s EXCEPT !.x = e.x, !.hist = Append(@, <<e.s, s.x>>),
                                        !.words = IF e.em = 1 THEN Append(@, e.w) ELSE @, !.cnt = @ + e.em],
                       bad |-> Need(EncodeOK(s.x, e.x, e.em, e.w, e.ls, e.bs, s.scale), "coder: encoding step", P)
                               \cup Need(LessEq(Lower, e.x) /\ Less(e.x, TopOfRange), "coder: state out of range", P)]
    [] e.k = "flush" -> [st |-> [s EXCEPT !.cnt = 2, !.phase = "dec"],
                         bad |-> Need(e.n = Len(s.words) + 2, "coder: number of words", P)
                                 \cup Need(Len(e.w) = 2 /\ Same(e.w[1], Low(s.x, 32)) /\ Same(e.w[2], Shr(s.x, 32)),
                                           "coder: flushed state", P)]
    [] e.k = "load" -> [st |-> s, bad |-> Need(Same(e.x, s.x), "coder: loaded state", P)]
    [] e.k = "dec" ->
         IF s.hist = <<>> THEN [st |-> s, bad |-> Need(FALSE, "coder: more symbols than were encoded", P)]
         ELSE LET h == s.hist[Len(s.hist)]
              IN [st |-> [s EXCEPT !.x = e.x, !.hist = SubSeq(@, 1, Len(@) - 1)],
                  bad |-> Need(e.s = h[1], "coder: decoded symbol", P)
                          \cup Need(Same(e.x, h[2]), "coder: decoding does not undo the encoding step", P)]
    [] e.k = "rend" -> [st |-> s, bad |-> Need(s.hist = <<>> /\ Same(e.x, Lower), "coder: final state is not the initial one", P)
                                          \cup Need(e.cnt = e.n, "coder: words left over", P)]
==============================================================================
