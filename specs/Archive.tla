-------------------------------- MODULE Archive -------------------------------
(* The archive: two path trees (files, names of coding states), blobs and
   coding states by id, and the stored segments.

   Logical state  [files, names, blobs, mst]:
     files : tokens -> [p |-> path as given, b |-> blob ids]
     names : tokens -> [p |-> path as given, id |-> coding state]
     blobs : id -> [hn, h, o, ms, n, d]   header, original size, state, data
     mst   : id -> [alg, n, d]
   Stored state: a sequence of segments [k, s, l, ...]: kind, start, length.
   Starts and lengths are in bits; every segment has a header of 72 bits.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Arguments

HEADER == 72
NoFun == [x \in {} |-> 0]
Fresh0 == [files |-> NoFun, names |-> NoFun, blobs |-> NoFun, mst |-> NoFun]

-------------------------------------------------------------- (* paths *)
Tokens(p) ==
  LET r == FoldLeft(LAMBDA a, c : IF c # Slash THEN [a EXCEPT !.cur = Append(@, c)]
                                  ELSE IF a.cur = <<>> THEN a
                                  ELSE [cur |-> <<>>, out |-> Append(a.out, a.cur)],
                    [cur |-> <<>>, out |-> <<>>], p)
  IN IF r.cur = <<>> THEN r.out ELSE Append(r.out, r.cur)

Leaf(T, t) == t \in DOMAIN T
Present(T, t) == \E l \in DOMAIN T : IsPrefix(t, l)
Beneath(T, t) == \E l \in DOMAIN T : l # t /\ IsPrefix(l, t)
CanCreate(T, t) == t # <<>> /\ ~Present(T, t) /\ ~Beneath(T, t)
Children(T, t) ==
  {[e |-> l[Len(t) + 1], leaf |-> Len(l) = Len(t) + 1] : l \in {x \in DOMAIN T : IsPrefix(t, x) /\ x # t}}

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, S) == [y \in DOMAIN f \ S |-> f[y]]

--------------------------------------------------- (* coding-state lifetime *)
Users(g, id) == {b \in DOMAIN g.blobs : g.blobs[b].ms = id}
Named(g, id) == \E t \in DOMAIN g.names : g.names[t].id = id

(* Removing blobs also removes the unnamed states nobody else uses. *)
WithoutBlobs(g, ids) ==
  LET gone == {x \in DOMAIN g.blobs : \E k \in 1..Len(ids) : ids[k] = x}
      blobs == Drop(g.blobs, gone)
      freed == {m \in {g.blobs[x].ms : x \in gone} :
                  /\ ~\E y \in DOMAIN blobs : blobs[y].ms = m
                  /\ ~Named(g, m)}
  IN [g EXCEPT !.blobs = blobs, !.mst = Drop(@, freed)]

--------------------------------------------------------- (* operations *)
(* Each operation: when it succeeds, and the logical state it leads to.      *)
CreateOK(g, p, bs) == /\ ValidPath(p) /\ CanCreate(g.files, Tokens(p))
                      /\ \A k \in 1..Len(bs) : bs[k].ms \in DOMAIN g.mst
Create(g, p, bs, ids) ==
  [g EXCEPT !.files = Put(@, Tokens(p), [p |-> p, b |-> ids]),
            !.blobs = [x \in DOMAIN @ \cup ToSet(ids) |->
                         IF x \in ToSet(ids) THEN bs[CHOOSE k \in 1..Len(ids) : ids[k] = x] ELSE @[x]]]
EntryOK(g, p) == CanCreate(g.files, Tokens(p))
Entry(g, p, ids) == [g EXCEPT !.files = Put(@, Tokens(p), [p |-> p, b |-> ids])]
RemoveFileOK(g, p) == ValidPath(p) /\ Leaf(g.files, Tokens(p))
RemoveFile(g, p) == LET t == Tokens(p) IN WithoutBlobs([g EXCEPT !.files = Drop(@, {t})], g.files[t].b)
ReadOK(g, p) == ValidPath(p) /\ Leaf(g.files, Tokens(p)) /\ \A k \in 1..Len(g.files[Tokens(p)].b) : g.files[Tokens(p)].b[k] \in DOMAIN g.blobs
WriteOK(g, b) == b.ms \in DOMAIN g.mst
Write(g, b, id) == [g EXCEPT !.blobs = Put(@, id, b)]
InstallOK(g, p) == ValidPath(p) /\ CanCreate(g.names, Tokens(p))
Install(g, p, m, id) == [g EXCEPT !.names = Put(@, Tokens(p), [p |-> p, id |-> id]), !.mst = Put(@, id, m)]
Add(g, m, id) == [g EXCEPT !.mst = Put(@, id, m)]
UninstallOK(g, p) == ValidPath(p) /\ Leaf(g.names, Tokens(p)) /\ Users(g, g.names[Tokens(p)].id) = {}
Uninstall(g, p) == LET t == Tokens(p) IN [g EXCEPT !.names = Drop(@, {t}), !.mst = Drop(@, {g.names[t].id})]
UninstallIdOK(g, id) == ~Named(g, id) /\ Users(g, id) = {}
UninstallId(g, id) == [g EXCEPT !.mst = Drop(@, {id})]
NameOK(g, p) == Leaf(g.names, Tokens(p))

----------------------------------------------------------- (* segments *)
FileSeg(e) == [k |-> "FILE", l |-> 130 + 8 * Len(e.p) + 64 * Len(e.b), p |-> e.p, b |-> e.b]
AuxSeg(e) == [k |-> "AUX", l |-> 136 + 8 * Len(e.p), p |-> e.p, id |-> e.id]
BlobSeg(id, b) == [k |-> "BLOB", l |-> 320 + 8 * b.hn + 8 * b.n, id |-> id, hn |-> b.hn, h |-> b.h, o |-> b.o,
                   ms |-> b.ms, n |-> b.n, d |-> b.d]
MstSeg(id, m) == [k |-> "MSTATE", l |-> 192 + 8 * m.n, id |-> id, alg |-> m.alg, n |-> m.n, d |-> m.d]
VersionSeg == [k |-> "VERSION", l |-> 32, v |-> 256]

LiveSegs(g) ==
  {VersionSeg}
  \cup {FileSeg(g.files[t]) : t \in DOMAIN g.files}
  \cup {AuxSeg(g.names[t]) : t \in DOMAIN g.names}
  \cup {BlobSeg(x, g.blobs[x]) : x \in DOMAIN g.blobs}
  \cup {MstSeg(x, g.mst[x]) : x \in DOMAIN g.mst}

At(seg, s) == [f \in DOMAIN seg \cup {"s"} |-> IF f = "s" THEN s ELSE seg[f]]
Bare(seg) == [f \in DOMAIN seg \ {"s"} |-> seg[f]]
Free(s, l) == [k |-> "EMPTY", s |-> s, l |-> l]
EndOf(segs) == IF segs = <<>> THEN 0 ELSE LET z == segs[Len(segs)] IN z.s + HEADER + z.l

(* Gap-free chain from bit 0. *)
Tiles(segs) == /\ segs # <<>> /\ segs[1].s = 0
               /\ \A x \in 1..(Len(segs) - 1) : segs[x + 1].s = segs[x].s + HEADER + segs[x].l
(* The live segments of the chain are exactly those of the logical state, each once. *)
LiveIn(segs) == SelectSeq(segs, LAMBDA z : z.k # "EMPTY")
Stores(segs, g) ==
  LET v == LiveIn(segs)
  IN Len(v) = Cardinality(LiveSegs(g)) /\ {Bare(v[x]) : x \in 1..Len(v)} = LiveSegs(g)

(* Where a segment of length L may go: into the smallest free segment that it
   fills exactly or that leaves room for a header, else (0) at the end.       *)
Fits(segs, L) == {x \in 1..Len(segs) : segs[x].k = "EMPTY" /\ (segs[x].l = L \/ segs[x].l >= L + HEADER)}
Places(segs, L) ==
  LET f == Fits(segs, L)
  IN IF f = {} THEN {0} ELSE {x \in f : \A y \in f : segs[x].l <= segs[y].l}
PlaceAt(segs, x, seg) ==
  IF x = 0 THEN Append(segs, At(seg, EndOf(segs)))
  ELSE LET hole == segs[x]
           rest == IF hole.l = seg.l THEN <<>> ELSE <<Free(hole.s + HEADER + seg.l, hole.l - seg.l - HEADER)>>
       IN SubSeq(segs, 1, x - 1) \o <<At(seg, hole.s)>> \o rest \o SubSeq(segs, x + 1, Len(segs))
FreeAll(segs, S) == [x \in 1..Len(segs) |-> IF Bare(segs[x]) \in S THEN Free(segs[x].s, segs[x].l) ELSE segs[x]]
==============================================================================
