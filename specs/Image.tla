-------------------------------- MODULE Image --------------------------------
(* How an image becomes a sequence of table slots, and back.

   An image is a list of channel planes; its samples are coded in the order of
   the planes, row by row.  The model of a sample is kept per chunk (a
   rectangle of a plane) and learns from the samples of its chunk that came
   before; the coder visits chunk after chunk, the decoder row after row.    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

------------------------------------------------------ (* channels of a PNG *)
Channels(ct) == CASE ct = 2 -> 3 [] ct = 4 -> 2 [] ct = 6 -> 4 [] OTHER -> 1
(* Samples a, pixel by pixel, as planes, one after the other. *)
Planes(a, n, nc) == [p \in 1..(n * nc) |-> a[((p - 1) % n) * nc + (p - 1) \div n + 1]]

------------------------------------------------------------ (* slot tables *)
(* Starts b and lengths l of the symbols 0..Len(b) - 1: each has slots of its
   own, inside a table of the given size. *)
InTable(b, l, size) == \A p \in 1..Len(b) : l[p] >= 1 /\ b[p] >= 0 /\ b[p] + l[p] <= size
Apart(b, l) ==
  \/ \A p \in 1..(Len(b) - 1) : b[p + 1] >= b[p] + l[p]      \* in the order of the symbols
  \/ \A p, q \in 1..Len(b) : p < q => b[p] + l[p] <= b[q] \/ b[q] + l[q] <= b[p]

----------------------------------------------------------- (* the adaptive model *)
(* The context of a sample is its left neighbour, or the upper one in the first
   column of a chunk, or nothing; a chunk knows nothing of its surroundings. *)
Context(img, w, x, y, x0, y0, order) ==
  CASE x > x0 -> img[y * w + x]
    [] x = x0 /\ y > y0 /\ order > 1 -> img[(y - 1) * w + x + 1]
    [] OTHER -> -1
(* What a sample teaches: <<context, weight>> for each neighbour. *)
Lessons(img, w, x, y, x0, y0, order, rate) ==
  (IF x > x0 THEN {<<img[y * w + x], rate, 1>>} ELSE {})
  \cup (IF y > y0 /\ order > 1 THEN {<<img[(y - 1) * w + x + 1], rate, 2>>} ELSE {})
  \cup (IF x > x0 /\ y > y0 /\ order > 2 THEN {<<img[(y - 1) * w + x], rate \div 2, 3>>} ELSE {})

Fresh(A) == [c \in 0..(A - 1) |-> [s \in 0..(A - 1) |-> 0]]
RECURSIVE Weight(_, _)
Weight(ls, c) == IF ls = {} THEN 0
                 ELSE LET t == CHOOSE t \in ls : TRUE
                      IN (IF t[1] = c THEN t[2] ELSE 0) + Weight(ls \ {t}, c)
Learn(f, sym, ls) == [c \in DOMAIN f |-> [f[c] EXCEPT ![sym] = @ + Weight(ls, c)]]
(* Table shares: one slot each, the rest by frequency, the remainder from the front. *)
Sum(f, n) == FoldLeft(LAMBDA a, s : a + f[s - 1], 0, [p \in 1..n |-> p])
Table(f, A, size) ==
  LET total == A + Sum(f, A)
      base == [s \in 0..(A - 1) |-> 1 + ((f[s] + 1) * (size - A)) \div total]
      left == size - Sum(base, A)
  IN [s \in 0..(A - 1) |-> base[s] + (IF s < left THEN 1 ELSE 0)]
Uniform(A, size) == [s \in 0..(A - 1) |-> size \div A]
PairOf(t, s) == <<Sum(t, s), t[s]>>
SymbolOf(t, A, slot) == CHOOSE s \in 0..(A - 1) : LET p == PairOf(t, s) IN p[1] <= slot /\ slot < p[1] + p[2]

TableAt(f, img, w, x, y, x0, y0, order, A, size) ==
  LET c == Context(img, w, x, y, x0, y0, order)
  IN IF c = -1 THEN Uniform(A, size) ELSE Table(f[c], A, size)
==============================================================================
