----------------------------- MODULE ImageModel ------------------------------
(* The coder walks an image chunk by chunk and notes a pair for every sample;
   the decoder, which has only the pairs' slots in row order, rebuilds tables,
   symbols and frequencies.  It must get the image back, for every image, size,
   chunk size and context order within the bounds.                           *)
EXTENDS Image, TLC

CONSTANTS MaxW, MaxH, A, Size, Rate

VARIABLES w, h, cw, ch, order, img, pairs, todo, maps, out, phase, dmaps
vars == <<w, h, cw, ch, order, img, pairs, todo, maps, out, phase, dmaps>>

(* Samples in the coder's order: chunks row by row, and rows inside a chunk. *)
ChunkOrder(W, Hh, Cw, Ch) ==
  LET xs == (W + Cw - 1) \div Cw
      ys == (Hh + Ch - 1) \div Ch
      Key(p) == LET x == p % W y == p \div W
                IN (((y \div Ch) * xs + (x \div Cw)) * Ch + (y % Ch)) * Cw + (x % Cw)
  IN SortSeq([p \in 1..(W * Hh) |-> p - 1], LAMBDA p, q : Key(p) < Key(q))
Chunk(p) == <<(p % w) \div cw, (p \div w) \div ch>>
X0(p) == Chunk(p)[1] * cw
Y0(p) == Chunk(p)[2] * ch
Chunks(W, Hh, Cw, Ch) == {<<x \div Cw, y \div Ch>> : x \in 0..(W - 1), y \in 0..(Hh - 1)}

Init ==
  /\ w \in 1..MaxW /\ h \in 1..MaxH
  /\ cw \in 1..MaxW /\ ch \in 1..MaxH
  /\ order \in 0..3
  /\ \E f \in [1..(w * h) -> 0..(A - 1)] : img = f
  /\ pairs = [p \in 1..(w * h) |-> <<>>]
  /\ todo = ChunkOrder(w, h, cw, ch)
  /\ maps = [c \in Chunks(w, h, cw, ch) |-> Fresh(A)]
  /\ dmaps = maps
  /\ out = <<>>
  /\ phase = "code"

Code ==
  /\ phase = "code" /\ todo # <<>>
  /\ LET p == Head(todo)
         t == TableAt(maps[Chunk(p)], img, w, p % w, p \div w, X0(p), Y0(p), order, A, Size)
     IN /\ pairs' = [pairs EXCEPT ![p + 1] = PairOf(t, img[p + 1])]
        /\ maps' = [maps EXCEPT ![Chunk(p)] =
                      Learn(@, img[p + 1], IF p % w = X0(p) /\ p \div w = Y0(p) THEN {}
                            ELSE Lessons(img, w, p % w, p \div w, X0(p), Y0(p), order, Rate))]
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<w, h, cw, ch, order, img, out, phase, dmaps>>

Turn == phase = "code" /\ todo = <<>> /\ phase' = "decode" /\ UNCHANGED <<w, h, cw, ch, order, img, pairs, todo, maps, out, dmaps>>

(* Row by row, from any slot of the pair. *)
Decode ==
  /\ phase = "decode" /\ Len(out) < w * h
  /\ LET p == Len(out)
         t == TableAt(dmaps[Chunk(p)], out, w, p % w, p \div w, X0(p), Y0(p), order, A, Size)
     IN \E slot \in {pairs[p + 1][1], pairs[p + 1][1] + pairs[p + 1][2] - 1} :
          LET s == SymbolOf(t, A, slot)
              o == Append(out, s)
          IN /\ out' = o
             /\ dmaps' = [dmaps EXCEPT ![Chunk(p)] =
                            Learn(@, s, IF p % w = X0(p) /\ p \div w = Y0(p) THEN {}
                                  ELSE Lessons(o, w, p % w, p \div w, X0(p), Y0(p), order, Rate))]
  /\ UNCHANGED <<w, h, cw, ch, order, img, pairs, todo, maps, phase>>

Done == phase = "decode" /\ Len(out) = w * h /\ UNCHANGED vars

Next == Code \/ Turn \/ Decode \/ Done
Spec == Init /\ [][Next]_vars

Decodable == \A p \in 1..Len(out) : out[p] = img[p]
SameModel == phase = "decode" /\ Len(out) = w * h => dmaps = maps
InRange == \A p \in 1..(w * h) : pairs[p] # <<>> => pairs[p][1] >= 0 /\ pairs[p][2] >= 1 /\ pairs[p][1] + pairs[p][2] <= Size
==============================================================================
