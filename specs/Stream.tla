-------------------------------- MODULE Stream --------------------------------
(* How a stream is cut into blocks.                                           *)
EXTENDS Integers, Sequences

NoFun == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, K) == [x \in DOMAIN f \ K |-> f[x]]
Lesser(x, y) == IF x < y THEN x ELSE y
Count(n, bs) == (n + bs - 1) \div bs
Blocks(v, bs) == [k \in 1..Count(Len(v), bs) |-> SubSeq(v, (k - 1) * bs + 1, Lesser(k * bs, Len(v)))]
==============================================================================
