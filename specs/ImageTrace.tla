----------------------------- MODULE ImageTrace ------------------------------
(* Recorded readings, models and compressions of images. *)
EXTENDS TraceBase, Image
Px == INSTANCE Pixels
Start == 0
P == {"C26"}
Whole == 16777216

(* What the reader must report of an image. *)
Facts(e, g) ==
  Need(g.w = e.w /\ g.h = e.h, "image: width and height", P)
  \cup Need(g.bd = e.bd /\ g.ct = e.ct /\ g.il = e.il /\ g.cm = 0 /\ g.fm = 0, "image: header fields", P)
  \cup Need(g.nc = Channels(e.ct), "image: number of channels", P)
  \cup Need(e.ct = 3 => g.pal = e.pal, "image: palette", P)
  \cup Need(g.room, "image: samples are missing", P)

Png(e) ==
  IF Has(e, "exc") THEN Need(FALSE, "image: a valid image is refused", P)
  ELSE LET g == e.got
       IN Facts(e, g) \cup
          (IF ~g.room THEN {}
           ELSE IF Has(g, "o") THEN Need(g.o = Planes(e.a, e.w * e.h, Channels(e.ct)), "image: samples", P)
           ELSE Need(g.same /\ \A p \in 1..(Len(g.at) \div 2) : g.at[2 * p - 1] = g.at[2 * p], "image: samples of a large image", P))

Bad(e) ==
  Need(e.r # "beyond", "image: more is read than the bytes given", P)
  \cup Need(e.r \in {"error", "beyond"}, "image: incomplete or damaged data is taken for an image", P)

Probe(e) ==
  IF Has(e, "exc") THEN Need(FALSE, "precode: throws", P)
  ELSE Need(e.n = e.w * e.h * e.nc * (IF e.bd > 8 THEN 2 ELSE 1), "precode: number of pairs", P)
    \cup Need(e.repeats, "precode: differs between runs", P)
    \cup Need(e.before, "precode: a pair depends on a later sample", P)
    \cup Need(InTable(e.b, e.l, Whole), "precode: slots outside the table", P)
    \cup Need(Apart(e.b, e.l), "precode: two symbols share a slot", P)
    \cup Need(e.own < Len(e.b) => e.ob = e.b[e.own + 1] /\ e.ol = e.l[e.own + 1], "precode: the pair of a sample", P)
    \cup Need(~e.dmg, "precode: something outside the device buffers was changed", P)

Same_(e) ==
  IF Has(e, "exc") THEN Need(FALSE, "precode: throws", P)
  ELSE Need(e.n = e.w * e.h * e.nc * (IF e.bd > 8 THEN 2 ELSE 1), "precode: number of pairs", P)
    \cup Need(e.same, "precode: depends on where it is computed", P)
    \cup Need(~e.dmg, "precode: something outside the device buffers was changed", P)

------------------------------------------------------------------------------
Plane(a, n, c) == SubSeq(a, (c - 1) * n + 1, c * n)
Join(x, y) == x \o y
(* The planes that are coded: colours decorrelated, then predicted. *)
Coded(e) ==
  LET n == e.w * e.h
      nc == Channels(e.ct)
      M == 2 ^ e.bd
      a == Planes(e.a, n, nc)
      c == IF e.ct \in {2, 6}
           THEN LET t == [p \in 1..n |-> Px!Forward(a[p], a[p + n], a[p + 2 * n], M)]
                IN [p \in 1..(nc * n) |-> IF p > 3 * n THEN a[p] ELSE t[((p - 1) % n) + 1][((p - 1) \div n) + 1]]
           ELSE a
  IN IF e.ct = 3 THEN c
     ELSE FoldLeft(LAMBDA acc, z : acc \o Px!Filter(Plane(c, n, z), e.w, e.h, M), <<>>, [z \in 1..nc |-> z])

Bytes4(v) == <<v \div 16777216, (v \div 65536) % 256, (v \div 256) % 256, v % 256>>
Header(e) == <<Channels(e.ct)>> \o Bytes4(e.w) \o Bytes4(e.h) \o <<e.bd, e.ct, e.il, 0, 0>>

Img(e) ==
  IF Has(e, "exc") THEN Need(FALSE, "image: a valid image is not compressed", P)
  ELSE LET hd == Header(e)
           n == Len(e.s)
       IN Need(Len(e.hdr) >= Len(hd) + 4 /\ SubSeq(e.hdr, 1, Len(hd)) = hd, "image: recorded header", P)
          \cup Need(e.ct = 3 => SubSeq(e.hdr, Len(hd) + 1, Len(e.hdr)) = Bytes4(Len(e.pal) \div 3) \o e.pal, "image: recorded palette", P)
          \cup Need(e.osize = e.len, "image: recorded size", P)
          \cup Need(e.kept, "image: the data was changed", P)
          \cup Need(e.size % 4 = 0 /\ e.room >= e.size, "image: size of the stream", P)
          \cup Need(e.p = Coded(e), "image: coded planes", P)
          \cup Need(~e.stopped /\ n = Len(e.p) * (IF e.bd > 8 THEN 2 ELSE 1), "image: the stream does not hold these samples", P)
          \cup Need(\A k \in 1..n : e.b[k] <= e.s[k] /\ e.s[k] < e.b[k] + e.l[k], "image: a sample is not where its slots are", P)
          \cup Need(e.whole, "image: the stream goes on after the last sample", P)

DoStep(s, e) == [st |-> s, bad |->
  CASE e.k = "png" -> Png(e)
    [] e.k = "bad" -> Bad(e)
    [] e.k = "probe" -> Probe(e)
    [] e.k = "same" -> Same_(e)
    [] e.k = "img" -> Img(e)]
==============================================================================
