----------------------------- MODULE PixelsModel -----------------------------
(* Exhaustive for small ranges: delta, lifting and the Paeth filter are
   inverted by their inverses, whatever the samples.                         *)
EXTENDS Pixels, TLC
CONSTANTS M, W, Hgt
VARIABLE a
Init == a = <<>>
Next == Len(a) < W * Hgt /\ \E v \in 0..(M - 1) : a' = Append(a, v)
Spec == Init /\ [][Next]_a
DeltaInverts == Undelta(Delta(a, M), M) = a /\ Delta(Undelta(a, M), M) = a
LiftInverts == Len(a) # 3 \/
  LET f == Forward(a[1], a[2], a[3], M)
      b == Backward(a[1], a[2], a[3], M)
  IN /\ Backward(f[1], f[2], f[3], M) = a
     /\ Forward(b[1], b[2], b[3], M) = a
     /\ \A k \in 1..3 : f[k] \in 0..(M - 1)
PaethInverts == Len(a) # W * Hgt \/ Unfilter(Filter(a, W, Hgt, M), W, Hgt, M) = a
==============================================================================
