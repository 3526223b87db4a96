----------------------------- MODULE ArchiveModel -----------------------------
(* All short histories of an archive: which logical and stored states are
   reachable, and that they satisfy what is claimed of every state.  Also used
   with -simulate to choose histories for the real code (variable log).       *)
EXTENDS Archive, Json

CONSTANTS Depth,     \* number of operations
          Sizes,     \* data sizes, in bytes
          Emit       \* print the histories (simulation only)

VARIABLES g, segs, n, log, grown
vars == <<g, segs, n, log, grown>>
View == <<g, segs, n>>

a == 97
b == 98
FPaths == {<<Slash, a>>, <<Slash, a, Slash, b>>, <<Slash, b>>, <<Slash, b, Slash>>}
NPaths == {<<Slash, a>>, <<Slash, a, Slash, b>>}

State(k) == [alg |-> 1, n |-> k, d |-> "s"]
Data(k, m) == [hn |-> 0, h |-> "", o |-> "0", ms |-> m, n |-> k, d |-> "x"]

(* Store the segments `todo` (a sequence) one after the other. *)
RECURSIVE StoreAll(_, _)
StoreAll(s, todo) ==
  IF todo = <<>> THEN {s}
  ELSE UNION {StoreAll(PlaceAt(s, x, Head(todo)), Tail(todo)) : x \in Places(s, Head(todo).l)}

Logged(e) == log' = Append(log, e)
Step ==
  /\ n < Depth /\ n' = n + 1

To(h, frees, todo) ==
  /\ g' = h
  /\ segs' \in StoreAll(FreeAll(segs, frees), todo)
  /\ grown' = (EndOf(segs') > EndOf(segs))
Stay == UNCHANGED <<g, segs>> /\ grown' = FALSE

MBind(k) == k       \* ids are operation numbers

AddMst(k) == /\ Step /\ Logged([op |-> "A", id |-> n, n |-> k])
             /\ LET h == Add(g, State(k), n) IN To(h, {}, <<MstSeg(n, State(k))>>)
InstallMst(p, k) ==
  /\ Step /\ Logged([op |-> "P", p |-> p, id |-> n, n |-> k])
  /\ IF InstallOK(g, p)
     THEN LET h == Install(g, p, State(k), n) IN To(h, {}, <<MstSeg(n, State(k)), AuxSeg([p |-> p, id |-> n])>>)
     ELSE Stay
CreateFile(p, k, m) ==
  /\ Step /\ Logged([op |-> "C", p |-> p, n |-> k, m |-> m])
  /\ LET bl == <<Data(k, m)>>
     IN IF CreateOK(g, p, bl)
        THEN LET h == Create(g, p, bl, <<n>>) IN To(h, {}, <<BlobSeg(n, bl[1]), FileSeg([p |-> p, b |-> <<n>>])>>)
        ELSE Stay
RemoveIt(p) ==
  /\ Step /\ Logged([op |-> "D", p |-> p])
  /\ IF RemoveFileOK(g, p)
     THEN LET h == RemoveFile(g, p) IN To(h, LiveSegs(g) \ LiveSegs(h), <<>>)
     ELSE Stay
UninstallPath(p) ==
  /\ Step /\ Logged([op |-> "U", p |-> p])
  /\ IF UninstallOK(g, p)
     THEN LET h == Uninstall(g, p) IN To(h, LiveSegs(g) \ LiveSegs(h), <<>>)
     ELSE Stay
UninstallState(m) ==
  /\ Step /\ Logged([op |-> "u", m |-> m])
  /\ IF UninstallIdOK(g, m)
     THEN LET h == UninstallId(g, m) IN To(h, LiveSegs(g) \ LiveSegs(h), <<>>)
     ELSE Stay

(* What opening the file again finds. *)
Recovered ==
  LET v == LiveIn(segs)
      S == {v[x] : x \in 1..Len(v)}
      F == {z \in S : z.k = "FILE"}
      A == {z \in S : z.k = "AUX"}
      B == {z \in S : z.k = "BLOB"}
      M == {z \in S : z.k = "MSTATE"}
  IN [files |-> [t \in {Tokens(z.p) : z \in F} |-> LET z == CHOOSE z \in F : Tokens(z.p) = t IN [p |-> z.p, b |-> z.b]],
      names |-> [t \in {Tokens(z.p) : z \in A} |-> LET z == CHOOSE z \in A : Tokens(z.p) = t IN [p |-> z.p, id |-> z.id]],
      blobs |-> [x \in {z.id : z \in B} |-> LET z == CHOOSE z \in B : z.id = x
                    IN [hn |-> z.hn, h |-> z.h, o |-> z.o, ms |-> z.ms, n |-> z.n, d |-> z.d]],
      mst |-> [x \in {z.id : z \in M} |-> LET z == CHOOSE z \in M : z.id = x IN [alg |-> z.alg, n |-> z.n, d |-> z.d]]]
Reopen == /\ log # <<>> /\ log[Len(log)].op # "O"
          /\ Step /\ Logged([op |-> "O"]) /\ g' = Recovered /\ UNCHANGED segs /\ grown' = FALSE

Init == /\ g = Fresh0 /\ segs = <<At(VersionSeg, 0)>> /\ n = 0 /\ log = <<>> /\ grown = FALSE
Ids == 0..(Depth - 1)
Next ==
  \/ \E k \in Sizes : AddMst(k)
  \/ \E p \in NPaths, k \in Sizes : InstallMst(p, k)
  \/ \E p \in FPaths, k \in Sizes, m \in DOMAIN g.mst \cup {999} : CreateFile(p, k, m)
  \/ \E p \in FPaths : RemoveIt(p)
  \/ \E p \in NPaths : UninstallPath(p)
  \/ \E m \in DOMAIN g.mst : UninstallState(m)
  \/ Reopen
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Tiling == Tiles(segs)                                               \* C03
OneSegmentEach == Stores(segs, g)                                   \* C03, C01
SurvivesReopening == Recovered = g                                  \* C02
Lifetimes ==                                                        \* C04
  /\ \A x \in DOMAIN g.blobs : g.blobs[x].ms \in DOMAIN g.mst
  /\ \A t \in DOMAIN g.names : g.names[t].id \in DOMAIN g.mst
EntriesWhole == \A t \in DOMAIN g.files : \A k \in 1..Len(g.files[t].b) : g.files[t].b[k] \in DOMAIN g.blobs
OneTree(T) == \A t, u \in DOMAIN T : t = u \/ ~IsPrefix(t, u)       \* C06
Namespace == OneTree(g.files) /\ OneTree(g.names)
              /\ \A t \in DOMAIN g.files : Tokens(g.files[t].p) = t
Removed == [][\A t \in DOMAIN g.files \ DOMAIN g'.files : {t} = DOMAIN g.files \ DOMAIN g'.files]_vars
Grows == [][EndOf(segs') >= EndOf(segs)]_vars                       \* C07
(* Growing means: nothing that was free could take the new segment. *)
GrowsOnlyWhenNothingFits ==                                         \* C07
  [][grown' => \E x \in 1..Len(segs') :
        /\ segs'[x].s >= EndOf(segs) /\ segs'[x].k # "EMPTY"
        /\ \A y \in 1..Len(segs) : (segs[y].k = "EMPTY" /\ \E z \in 1..Len(segs') : segs'[z] = segs[y])
             => (segs[y].l # segs'[x].l /\ segs[y].l < segs'[x].l + HEADER)]_vars
(* A split never makes a free segment that cannot hold its own header. *)
FreeWhole == \A x \in 1..Len(segs) : segs[x].l >= 0

EmitLog == ~Emit \/ n < Depth \/ PrintT("HIST " \o ToJson(log))
==============================================================================
