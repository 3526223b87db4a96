----------------------------- MODULE ArchiveTrace -----------------------------
(* Recorded archive histories against Archive.  Each line is one public
   operation, its result, and (when they changed) the segments found in the
   stored bytes by an independent reader.

   State: g (logical), segs (stored), open.                                  *)
EXTENDS TraceBase, Archive

Start == [g |-> Fresh0, segs |-> <<>>, open |-> FALSE]

C01 == {"C01"}
C02 == {"C02"}
C03 == {"C03"}
C04 == {"C04"}
C05 == {"C05"}
C06 == {"C06"}
C07 == {"C07"}

(* The segments after the event; unchanged when not recorded. *)
After(s, e) == IF Has(e, "segs") THEN e.segs ELSE s.segs
Broken(segs) == \E x \in 1..Len(segs) : segs[x].k = "BAD"

(* Is A what storing the segments of `todo` one after the other gives? *)
RECURSIVE Explains(_, _, _)
Explains(segs, todo, A) ==
  IF todo = {} THEN segs = A
  ELSE \E seg \in todo :
         LET found == {x \in 1..Len(A) : A[x].k = seg.k /\ Bare(A[x]) = seg}
         IN Cardinality(found) = 1 /\
            LET s == A[CHOOSE x \in found : TRUE].s
            IN \E x \in Places(segs, seg.l) :
                 /\ s = (IF x = 0 THEN EndOf(segs) ELSE segs[x].s)
                 /\ Explains(PlaceAt(segs, x, seg), todo \ {seg}, A)

(* Storage after a successful operation that leads from g to h. *)
Storage(s, h, A) ==
  LET old == LiveSegs(s.g)
      new == LiveSegs(h)
      live == LiveIn(A)
      seen == {Bare(live[x]) : x \in 1..Len(live)}
      base == FreeAll(s.segs, old \ new)
      diff == (seen \ new) \cup (new \ seen)
  IN IF Broken(A) THEN Need(FALSE, "a stored segment is malformed", C03)
     ELSE IF ~Tiles(A) THEN Need(FALSE, "the segments do not tile the file", C03)
     ELSE IF Len(live) # Cardinality(seen) THEN Need(FALSE, "a live segment is stored twice", C03)
     ELSE IF diff # {} THEN
          IF \A d \in diff : d.k = "MSTATE"
          THEN Need({d \in diff : d \in new /\ d \notin old} = {} , "the stored coding state differs from the one given", C03 \cup C01)
               \cup Need({d \in diff : ~(d \in new /\ d \notin old)} = {}, "a coding state is dropped or kept wrongly", C04)
          ELSE Need(FALSE, "the stored segments are not those of the logical state", C03 \cup C01)
     ELSE IF A = s.segs /\ old = new THEN {}
     ELSE Need(Explains(base, new \ old, A), "placement of segments", C07)

Same(s, e) == After(s, e) = s.segs

(* A failed operation. *)
Failed(s, e) ==
  [st |-> s, bad |-> Need(Same(s, e), "a failed operation changed the stored segments", C05)
                     \cup Need(Tiles(After(s, e)) /\ ~Broken(After(s, e)), "the segments do not tile the file", C03)]

(* Result of an operation that should succeed iff ok; `surplus` owns wrong
   acceptance, `missing` wrong refusal.                                       *)
Outcome(s, e, ok, h, surplus, missing) ==
  IF e.r = "exc" THEN [st |-> s, bad |-> Need(FALSE, e.k \o ": fails with an internal error", surplus \cup missing \cup C05)]
  ELSE IF ok /\ e.r = "ok" THEN [st |-> [s EXCEPT !.g = h, !.segs = After(s, e)], bad |-> Storage(s, h, After(s, e))]
  ELSE IF ~ok /\ e.r = "err" THEN Failed(s, e)
  ELSE IF ok THEN [st |-> s, bad |-> Need(FALSE, e.k \o ": refused although it must succeed", missing)]
  ELSE [st |-> s, bad |-> Need(FALSE, e.k \o ": accepted although it must fail", surplus \cup {"not C05"})]

(* A reading operation: nothing stored changes; on success `right` holds. *)
Reading(s, e, ok, right, owners) ==
  [st |-> s, bad |->
     Need(Same(s, e), e.k \o ": changed the stored segments", C03)
     \cup (IF e.r = "exc" THEN Need(FALSE, e.k \o ": fails with an internal error", owners \cup C05)
           ELSE IF ok /\ e.r = "ok" THEN Need(right, e.k \o ": wrong answer", owners)
           ELSE IF ~ok /\ e.r = "err" THEN {}
           ELSE IF ok THEN Need(FALSE, e.k \o ": refused although it must succeed", owners)
           ELSE Need(FALSE, e.k \o ": accepted although it must fail", owners \cup {"not C05"}))]

(* ---- creating and storing *)
NewFile(s, e) == LET A == After(s, e)
                 IN {x \in 1..Len(A) : A[x].k = "FILE" /\ A[x].p = e.p}
CreateEv(s, e) ==
  LET ok == CreateOK(s.g, e.p, e.b)
      f == NewFile(s, e)
      why == IF ~ValidPath(e.p) THEN C05 \cup C06
             ELSE IF ~CanCreate(s.g.files, Tokens(e.p)) THEN C06 ELSE C04 \cup C05
  IN IF ok /\ e.r = "ok" /\ Cardinality(f) # 1
     THEN [st |-> s, bad |-> Need(FALSE, "create: no entry is stored", C03 \cup C01)]
     ELSE LET ids == IF f = {} THEN <<>> ELSE After(s, e)[CHOOSE x \in f : TRUE].b
          IN IF ok /\ e.r = "ok" /\
                (Len(ids) # Len(e.b) \/ Cardinality(ToSet(ids)) # Len(ids) \/ ToSet(ids) \cap DOMAIN s.g.blobs # {})
             THEN [st |-> s, bad |-> Need(FALSE, "create: the entry does not list its blobs", C03 \cup C01)]
             ELSE Outcome(s, e, ok, IF ok /\ e.r = "ok" THEN Create(s.g, e.p, e.b, ids) ELSE s.g, why, C01 \cup C06)
EntryEv(s, e) == Outcome(s, e, EntryOK(s.g, e.p), Entry(s.g, e.p, e.ids), C06, C06 \cup C01)
WriteEv(s, e) ==
  LET ok == WriteOK(s.g, e.b)
  IN IF e.r = "ok" /\ e.id \in DOMAIN s.g.blobs THEN [st |-> s, bad |-> Need(FALSE, "write: id already in use", C01)]
     ELSE Outcome(s, e, ok, IF e.r = "ok" THEN Write(s.g, e.b, e.id) ELSE s.g, C04 \cup C05, C01 \cup C04)
RemoveEv(s, e) ==
  LET ok == RemoveFileOK(s.g, e.p)
  IN Outcome(s, e, ok, IF ok THEN RemoveFile(s.g, e.p) ELSE s.g, C01 \cup C06, C06 \cup C04 \cup C01)

(* ---- coding states *)
NewAux(s, e) == LET A == After(s, e)
                IN {x \in 1..Len(A) : A[x].k = "AUX" /\ A[x].p = e.p}
InstallEv(s, e) ==
  LET ok == InstallOK(s.g, e.p)
      f == NewAux(s, e)
  IN IF ok /\ e.r = "ok" /\ Cardinality(f) # 1
     THEN [st |-> s, bad |-> Need(FALSE, "install: no path binding is stored", C03 \cup C01)]
     ELSE LET id == IF f = {} THEN "none" ELSE After(s, e)[CHOOSE x \in f : TRUE].id
          IN IF ok /\ e.r = "ok" /\ id \in DOMAIN s.g.mst
             THEN [st |-> s, bad |-> Need(FALSE, "install: id already in use", C01 \cup C03)]
             ELSE Outcome(s, e, ok, IF ok /\ e.r = "ok" THEN Install(s.g, e.p, e.m, id) ELSE s.g,
                          IF ValidPath(e.p) THEN C06 ELSE C05 \cup C06, C01 \cup C06)
AddEv(s, e) ==
  IF e.r = "ok" /\ e.id \in DOMAIN s.g.mst THEN [st |-> s, bad |-> Need(FALSE, "add: id already in use", C01)]
  ELSE Outcome(s, e, TRUE, IF e.r = "ok" THEN Add(s.g, e.m, e.id) ELSE s.g, C01, C01)
UninstallEv(s, e) ==
  LET ok == UninstallOK(s.g, e.p)
      inUse == ValidPath(e.p) /\ Leaf(s.g.names, Tokens(e.p))
  IN Outcome(s, e, ok, IF ok THEN Uninstall(s.g, e.p) ELSE s.g, IF inUse THEN C04 ELSE C06 \cup C01, C04 \cup C06)
UninstallIdEv(s, e) ==
  LET ok == UninstallIdOK(s.g, e.id)
  IN Outcome(s, e, ok, IF ok THEN UninstallId(s.g, e.id) ELSE s.g, C04, C04)

(* ---- reading *)
BlobsOf(g, t) == [k \in 1..Len(g.files[t].b) |-> g.blobs[g.files[t].b[k]]]
(* what comes back for a blob: also the coding state it was stored with *)
Full(g, b) == [hn |-> b.hn, h |-> b.h, o |-> b.o, ms |-> b.ms, n |-> b.n, d |-> b.d,
               alg |-> g.mst[b.ms].alg, mn |-> g.mst[b.ms].n, md |-> g.mst[b.ms].d]
ReadEv(s, e) ==
  LET ok == ReadOK(s.g, e.p)
      t == Tokens(e.p)
  IN Reading(s, e, ok, ok => e.v = [k \in 1..Len(BlobsOf(s.g, t)) |-> Full(s.g, BlobsOf(s.g, t)[k])], C01)
ReadEntryEv(s, e) ==
  LET t == Tokens(e.p)
      ok == Leaf(s.g.files, t)
  IN Reading(s, e, ok, ok => e.v = s.g.files[t].b, C01)
ReadBlobEv(s, e) == LET ok == e.id \in DOMAIN s.g.blobs
                    IN Reading(s, e, ok, ok => e.v = Full(s.g, s.g.blobs[e.id]), C01)
ReadNameEv(s, e) ==
  LET t == Tokens(e.p)
      ok == NameOK(s.g, e.p)
  IN Reading(s, e, ok, ok => e.v = s.g.mst[s.g.names[t].id], C01)
InjectEv(s, e) ==
  LET t == Tokens(e.p)
      ok == ValidPath(e.p) /\ NameOK(s.g, e.p)
  IN Reading(s, e, ok, ok => (e.id = s.g.names[t].id /\ e.v = s.g.mst[s.g.names[t].id]), C01)

Tree(s, e) == IF e.t = "f" THEN s.g.files ELSE s.g.names
ExistsEv(s, e) ==
  LET t == Tokens(e.p)
  IN IF t = <<>> THEN Reading(s, e, TRUE, TRUE, C06)
     ELSE Reading(s, e, TRUE, e.v = Present(Tree(s, e), t), C06)
ListEv(s, e) ==
  LET t == Tokens(e.p)
      T == Tree(s, e)
  IN IF Leaf(T, t)
     THEN [st |-> s, bad |-> Need(e.r = "ok" => e.v = <<>>, "list: a leaf has entries", C06) \cup Need(e.r # "exc", "list: internal error", C06)]
     ELSE Reading(s, e, t = <<>> \/ Present(T, t),
                  Len(e.v) = Cardinality(ToSet(e.v)) /\ ToSet(e.v) = Children(T, t), C06)

(* ---- everything at once, by walking the listings *)
Readable(g) == \A t \in DOMAIN g.files : \A k \in 1..Len(g.files[t].b) : g.files[t].b[k] \in DOMAIN g.blobs
SnapEv(s, e) ==
  LET g == s.g
  IN [st |-> s, bad |->
       Need(Same(s, e), "snapshot: changed the stored segments", C03)
       \cup Need(e.r = "ok" \/ ~Readable(g), "snapshot: a listed entry cannot be read", C01 \cup C06)
       \cup (IF e.r # "ok" THEN {} ELSE
         Need(Len(e.files) = Cardinality({e.files[x].p : x \in 1..Len(e.files)})
              /\ {Tokens(e.files[x].p) : x \in 1..Len(e.files)} = DOMAIN g.files, "snapshot: set of files", C06)
         \cup Need(Len(e.names) = Cardinality({e.names[x].p : x \in 1..Len(e.names)})
              /\ {Tokens(e.names[x].p) : x \in 1..Len(e.names)} = DOMAIN g.names, "snapshot: set of names", C06)
         \cup Need(\A x \in 1..Len(e.files) : LET t == Tokens(e.files[x].p) IN
                t \in DOMAIN g.files => (e.files[x].b = g.files[t].b /\
                    e.files[x].v = [k \in 1..Len(BlobsOf(g, t)) |-> Full(g, BlobsOf(g, t)[k])]),
              "snapshot: contents of a file", C01)
         \cup Need(\A x \in 1..Len(e.names) : LET t == Tokens(e.names[x].p) IN
                t \in DOMAIN g.names => e.names[x].v = g.mst[g.names[t].id],
              "snapshot: contents of a coding state", C01))]

(* ---- life cycle *)
Initial == <<At(VersionSeg, 0)>>
NewEv(s, e) == [st |-> Start, bad |-> {}]
OpenEv(s, e) ==   \* constructor and load
  LET first == s.segs = <<>>
      A == IF Has(e, "segs") THEN e.segs ELSE s.segs
  IN [st |-> [s EXCEPT !.segs = A, !.open = TRUE],
      bad |-> Need(e.r = "ok", "open: fails", C02)
              \cup (IF e.r # "ok" THEN {} ELSE
                    IF first THEN Need(A = Initial, "open: a new archive is not an empty one", C02 \cup C03)
                    ELSE Need(A = s.segs, "open: changed the stored segments", C02 \cup C03))]
CloseEv(s, e) ==  \* the segments as found in the file
  [st |-> [s EXCEPT !.open = FALSE],
   bad |-> Need(e.r = "ok", "close: fails", C02)
           \cup Need(e.segs = s.segs, "close: the file differs from the open archive", C02 \cup C03)
           \cup Need(e.ended, "close: no end marker after the last segment", C02 \cup C03)]

DoStep(s, e) ==
  CASE e.k = "new" -> NewEv(s, e)
    [] e.k = "open" -> OpenEv(s, e)
    [] e.k = "close" -> CloseEv(s, e)
    [] e.k = "create" -> CreateEv(s, e)
    [] e.k = "entry" -> EntryEv(s, e)
    [] e.k = "write" -> WriteEv(s, e)
    [] e.k = "remove" -> RemoveEv(s, e)
    [] e.k = "install" -> InstallEv(s, e)
    [] e.k = "add" -> AddEv(s, e)
    [] e.k = "uninstall" -> UninstallEv(s, e)
    [] e.k = "uninstallid" -> UninstallIdEv(s, e)
    [] e.k = "read" -> ReadEv(s, e)
    [] e.k = "readentry" -> ReadEntryEv(s, e)
    [] e.k = "readblob" -> ReadBlobEv(s, e)
    [] e.k = "readname" -> ReadNameEv(s, e)
    [] e.k = "inject" -> InjectEv(s, e)
    [] e.k = "exists" -> ExistsEv(s, e)
    [] e.k = "list" -> ListEv(s, e)
    [] e.k = "snap" -> SnapEv(s, e)
==============================================================================
