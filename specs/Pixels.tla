-------------------------------- MODULE Pixels --------------------------------
(* Delta transform, YCoCg lifting and Paeth prediction.                      *)
EXTENDS Integers, Sequences, SequencesExt

------------------------------------------------------------------ (* delta *)
(* M is the modulus of the integer range. *)
Delta(a, M) == [p \in 1..Len(a) |-> IF p = 1 THEN a[1] ELSE (a[p] - a[p - 1] + M) % M]
Undelta(d, M) == FoldLeft(LAMBDA acc, v : Append(acc, IF acc = <<>> THEN v ELSE (acc[Len(acc)] + v) % M), <<>>, d)

(* The same on 32-bit values split into two halves. *)
H == 65536
Sub32(a, b) == LET lo == a[2] - b[2]
                   hi == a[1] - b[1] - (IF lo < 0 THEN 1 ELSE 0)
               IN <<(hi + 2 * H) % H, (lo + H) % H>>
Add32(a, b) == LET lo == a[2] + b[2]
               IN <<(a[1] + b[1] + lo \div H) % H, lo % H>>

--------------------------------------------------------------- (* lifting *)
(* (x, y) -> (average, difference), modulo M = 2^depth. *)
Lift(x, y, M) == LET d == (y - x + M) % M IN <<(x + d \div 2) % M, d>>
Unlift(a, d, M) == LET x == (a - d \div 2 + M) % M IN <<x, (x + d) % M>>
Forward(r, g, b, M) == LET co == Lift(r, b, M)
                           cg == Lift(g, co[1], M)
                       IN <<cg[1], co[2], cg[2]>>
Backward(y, co, cg, M) == LET gt == Unlift(y, cg, M)
                              rb == Unlift(gt[2], co, M)
                          IN <<rb[1], gt[1], rb[2]>>
(* Without a modulus (\div rounds down, as an arithmetic shift does). *)
LiftZ(x, y) == <<x + (y - x) \div 2, y - x>>
ForwardZ(r, g, b) == LET co == LiftZ(r, b)
                         cg == LiftZ(g, co[1])
                     IN <<cg[1], co[2], cg[2]>>

----------------------------------------------------------------- (* Paeth *)
Abs(x) == IF x < 0 THEN -x ELSE x
Nearest(d, p) ==   \* the first of the candidates p nearest to d
  LET best == CHOOSE k \in 1..Len(p) : \A j \in 1..Len(p) :
                 Abs(p[k] - d) <= Abs(p[j] - d) /\ (j < k => Abs(p[j] - d) > Abs(p[k] - d))
  IN p[best]
At(a, w, x, y) == a[y * w + x + 1]
(* The filter predicts from left, up, upper left; the predictor from up, left, upper left. *)
Predict(hasLeft, hasUp, l, u, c) ==
  CASE hasLeft /\ hasUp -> Nearest(Abs(l + u - c), <<l, u, c>>)
    [] hasLeft /\ ~hasUp -> l
    [] ~hasLeft /\ hasUp -> u
    [] OTHER -> 0
FilterPredict(a, w, x, y) ==
  Predict(x > 0, y > 0, IF x > 0 THEN At(a, w, x - 1, y) ELSE 0, IF y > 0 THEN At(a, w, x, y - 1) ELSE 0,
          IF x > 0 /\ y > 0 THEN At(a, w, x - 1, y - 1) ELSE 0)
ModelPredict(a, w, x, y) ==
  IF x = 0 /\ y = 0 THEN 0
  ELSE IF y = 0 THEN At(a, w, x - 1, y)
  ELSE IF x = 0 THEN At(a, w, x, y - 1)
  ELSE LET l == At(a, w, x - 1, y)
           u == At(a, w, x, y - 1)
           c == At(a, w, x - 1, y - 1)
       IN Nearest(l + u - c, <<u, l, c>>)
Filter(a, w, h, M) == [p \in 1..(w * h) |->
   (a[p] - FilterPredict(a, w, (p - 1) % w, (p - 1) \div w) + M) % M]
Unfilter(f, w, h, M) ==
  FoldLeft(LAMBDA acc, v : Append(acc, (v + FilterPredict(acc, w, Len(acc) % w, Len(acc) \div w)) % M), <<>>, f)
==============================================================================
