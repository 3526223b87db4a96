----------------------------- MODULE ZigZagTrace -----------------------------
EXTENDS TraceBase, ZigZag
P == {"C22"}
Start == 0
Cell(q, n) == <<q[2 * n - 1], q[2 * n]>>
Count(q) == Len(q) \div 2
Follows(w, h, q) ==
  /\ \A n \in 1..Count(q) : Cell(q, n) # Done
  /\ Count(q) > 0 => Cell(q, 1) = FirstCell(w, h)
  /\ \A n \in 1..(Count(q) - 1) : Cell(q, n + 1) = NextCell(w, h, Cell(q, n))
Zz(e) ==
  LET n == Count(e.q)
      m == Count(e.pre)
  IN Need(e.end, "zigzag: the scan does not end after the last cell", P)
     \cup Need(n = e.w * e.h, "zigzag: number of visited cells", P)
     \cup Need(Follows(e.w, e.h, e.q), "zigzag: order of cells", P)
     \cup (IF n # e.w * e.h THEN {} ELSE
           Need(\A k \in 1..m : Cell(e.pre, k) = Cell(e.q, k + 1), "zigzag: pre-increment", P)
           \cup (IF e.same = <<>> THEN {} ELSE
                 LET z == n + 1
                 IN Need(Len(e.same) = z * z
                         /\ \A x, k \in 1..z : e.same[(x - 1) * z + k] = (IF x = k THEN 1 ELSE 0)
                                             /\ e.other[(x - 1) * z + k] = (IF x = k THEN 0 ELSE 1),
                         "zigzag: comparison of positions", P))
           \cup Need(\A k \in 1..m : Cell(e.post, k) = Cell(e.q, k), "zigzag: post-increment", P))
Zzp(e) == Need(Count(e.q) = 60 /\ Follows(e.w, e.h, e.q), "zigzag: start of a huge scan", P)
Chained(w, h, q) == \A n \in 1..(Count(q) - 1) : Cell(q, n + 1) = NextCell(w, h, Cell(q, n))
Zzl(e) ==
  LET l == e.parts[Len(e.parts)]
  IN Need(e.n = e.w * e.h, "zigzag: number of visited cells", P)
     \cup Need(Cell(e.parts[1], 1) = FirstCell(e.w, e.h), "zigzag: start of a long scan", P)
     \cup Need(\A k \in 1..Len(e.parts) : Chained(e.w, e.h, e.parts[k]), "zigzag: order of cells", P)
     \cup Need(e.n = e.w * e.h => NextCell(e.w, e.h, Cell(l, Count(l))) = Done, "zigzag: end of a long scan", P)
DoStep(s, e) == [st |-> s, bad |-> CASE e.k = "zz" -> Zz(e) [] e.k = "zzp" -> Zzp(e) [] e.k = "zzl" -> Zzl(e)]
==============================================================================
