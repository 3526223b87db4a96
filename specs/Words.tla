--------------------------------- MODULE Words --------------------------------
(* Unsigned integers wider than TLC's, as little-endian digits base 2^15.    *)
EXTENDS Integers, Sequences, SequencesExt
B == 32768
Zero(n) == [p \in 1..n |-> 0]
Digit(a, p) == IF p >= 1 /\ p <= Len(a) THEN a[p] ELSE 0
Fit(a, n) == [p \in 1..n |-> Digit(a, p)]
IsZero(a) == \A p \in 1..Len(a) : a[p] = 0
Max2(x, y) == IF x > y THEN x ELSE y
Same(a, b) == \A p \in 1..Max2(Len(a), Len(b)) : Digit(a, p) = Digit(b, p)

Less(a, b) == LET n == Max2(Len(a), Len(b))
                  d == {p \in 1..n : Digit(a, p) # Digit(b, p)}
              IN IF d = {} THEN FALSE
                 ELSE LET p == CHOOSE x \in d : \A y \in d : y <= x IN Digit(a, p) < Digit(b, p)
LessEq(a, b) == ~Less(b, a)

Add(a, b) ==
  LET n == Max2(Len(a), Len(b)) + 1
      r == FoldLeft(LAMBDA acc, p : LET v == Digit(a, p) + Digit(b, p) + acc.c
                                    IN [c |-> v \div B, o |-> Append(acc.o, v % B)],
                    [c |-> 0, o |-> <<>>], [p \in 1..n |-> p])
  IN r.o

(* a - b, for a >= b *)
Sub(a, b) ==
  LET n == Max2(Len(a), Len(b))
      r == FoldLeft(LAMBDA acc, p : LET v == Digit(a, p) - Digit(b, p) - acc.c
                                    IN IF v < 0 THEN [c |-> 1, o |-> Append(acc.o, v + B)]
                                       ELSE [c |-> 0, o |-> Append(acc.o, v)],
                    [c |-> 0, o |-> <<>>], [p \in 1..n |-> p])
  IN r.o

MulDigit(a, d) ==
  LET r == FoldLeft(LAMBDA acc, x : LET v == x * d + acc.c
                                    IN [c |-> v \div B, o |-> Append(acc.o, v % B)],
                    [c |-> 0, o |-> <<>>], a)
  IN Append(r.o, r.c)

Mul(a, b) == FoldLeft(LAMBDA acc, p : Add(acc, Zero(p - 1) \o MulDigit(a, b[p])), <<0>>, [p \in 1..Len(b) |-> p])

(* Shifts and remainders by powers of two. *)
Shl(a, k) == Mul(Zero(k \div 15) \o a, <<2 ^ (k % 15)>>)
Shr(a, k) ==
  LET w == k \div 15
      r == k % 15
  IN [p \in 1..Max2(Len(a) - w, 1) |-> (Digit(a, p + w) \div 2 ^ r) + (Digit(a, p + w + 1) % 2 ^ r) * 2 ^ (15 - r)]
Low(a, k) ==
  LET w == k \div 15
  IN [p \in 1..(w + 1) |-> IF p <= w THEN Digit(a, p) ELSE Digit(a, p) % 2 ^ (k % 15)]
OfInt(n) == <<n % B, (n \div B) % B, n \div (B * B)>>
==============================================================================
