------------------------------- MODULE CodecTrace -----------------------------
(* Blocks through the codecs, as an archive would keep them.                 *)
EXTENDS TraceBase
P == {"C19"}
Start == 0
Registry == <<[name |-> "UNCOMPRESSED", codec |-> "Uncompressed", bsize |-> "800000"],
              [name |-> "VICTINI", codec |-> "Victini", bsize |-> "400000"],
              [name |-> "SHARINGAN", codec |-> "Sharingan", bsize |-> "ffffffffffffffff"]>>
Alg(e) ==
  IF e.a < 3
  THEN LET r == Registry[e.a + 1]
       IN Need(e.name = r.name, "registry: name", P) \cup Need(e.codec = r.codec, "registry: codec", P)
          \cup Need(e.bsize = r.bsize, "registry: block size", P)
  ELSE Need(e.name = "err" /\ e.codec = "err", "registry: unknown number is not rejected", P)
(* kept raw => under its own, uncompressed state and with its own length *)
Blk(e) ==
  IF Has(e, "exc") THEN Need(FALSE, "codec throws", P)
  ELSE Need(e.out = e.in /\ e.outn = e.n, "codec: decompressed block differs", P)
    \cup Need(e.osize = e.n, "codec: original size", P)
    \cup Need(e.raw => (e.malg = 0 /\ e.size = e.n), "codec: block kept raw is not marked as such", P)
    \cup Need((~e.raw) => e.malg = e.alg, "codec: compressed block names another algorithm", P)
    \cup Need((e.alg # 0 /\ ~e.raw) => e.size < e.n, "codec: block grew", P)
    \cup Need(e.shared, "codec: the shared coding state was changed", P)
DoStep(s, e) == [st |-> s, bad |-> CASE e.k = "alg" -> Alg(e) [] e.k = "blk" -> Blk(e)]
==============================================================================
