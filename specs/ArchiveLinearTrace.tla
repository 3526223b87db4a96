-------------------------- MODULE ArchiveLinearTrace --------------------------
(* Concurrent archive operations against the sequential archive of Archive.
   Ids are symbolic: the operation that makes something names it.             *)
EXTENDS TraceBase, Archive, Linear

C08 == {"C08"}
Start == Explained(Fresh0)

Blob(b) == [hn |-> b.hn, h |-> b.h, o |-> b.o, ms |-> b.ms, n |-> b.n, d |-> b.d]
Ids(e) == [k \in 1..Len(e.b) |-> e.b[k].id]
Blobs(e) == [k \in 1..Len(e.b) |-> Blob(e.b[k])]
(* what reading a blob gives *)
Full(g, b) == [hn |-> b.hn, h |-> b.h, o |-> b.o, n |-> b.n, d |-> b.d,
               alg |-> g.mst[b.ms].alg, mn |-> g.mst[b.ms].n, md |-> g.mst[b.ms].d]
FileOf(g, t) == [k \in 1..Len(g.files[t].b) |-> Full(g, g.blobs[g.files[t].b[k]])]

Is(r, v) == [r |-> r, v |-> v]
Fails(g) == {[g |-> g, out |-> [r |-> "err"]]}
Changes(h) == {[g |-> h, out |-> [r |-> "ok"]]}
Answers(g, v) == {[g |-> g, out |-> [r |-> "ok", v |-> v]]}
If(g, ok, S) == IF ok THEN S ELSE Fails(g)

Tree(g, e) == IF e.t2 = "f" THEN g.files ELSE g.names
DoApply(g, e) ==
  CASE e.op = "add" -> Changes(Add(g, e.m, e.id))
    [] e.op = "install" -> IF InstallOK(g, e.p) THEN Changes(Install(g, e.p, e.m, e.id)) ELSE Fails(g)
    [] e.op = "create" -> IF CreateOK(g, e.p, Blobs(e)) THEN Changes(Create(g, e.p, Blobs(e), Ids(e))) ELSE Fails(g)
    [] e.op = "write" -> IF WriteOK(g, Blobs(e)[1]) THEN Changes(Write(g, Blobs(e)[1], Ids(e)[1])) ELSE Fails(g)
    [] e.op = "remove" -> IF RemoveFileOK(g, e.p) THEN Changes(RemoveFile(g, e.p)) ELSE Fails(g)
    [] e.op = "uninstall" -> IF UninstallOK(g, e.p) THEN Changes(Uninstall(g, e.p)) ELSE Fails(g)
    [] e.op = "uninstallid" -> IF UninstallIdOK(g, e.id) THEN Changes(UninstallId(g, e.id)) ELSE Fails(g)
    [] e.op = "read" -> IF ReadOK(g, e.p) THEN Answers(g, FileOf(g, Tokens(e.p)))
                         \* told that there is no such file, and not that a part of it is missing
                         ELSE IF ~ValidPath(e.p) THEN Fails(g)
                         ELSE (IF ~Leaf(g.files, Tokens(e.p)) THEN {[g |-> g, out |-> [r |-> "gone"]]} ELSE {})
                              \cup (IF Present(g.files, Tokens(e.p)) THEN Fails(g) ELSE {})
    [] e.op = "readblob" -> IF e.id \in DOMAIN g.blobs THEN Answers(g, Full(g, g.blobs[e.id])) ELSE Fails(g)
    [] e.op = "readname" -> IF NameOK(g, e.p) THEN Answers(g, g.mst[g.names[Tokens(e.p)].id]) ELSE Fails(g)
    [] e.op = "inject" -> IF ValidPath(e.p) /\ NameOK(g, e.p) THEN Answers(g, g.mst[g.names[Tokens(e.p)].id]) ELSE Fails(g)
    [] e.op = "exists" -> Answers(g, Present(Tree(g, e), Tokens(e.p)))
    [] e.op = "list" ->
         LET t == Tokens(e.p)
             T == Tree(g, e)
         IN IF Leaf(T, t) THEN Answers(g, {}) \cup Fails(g)
            ELSE IF t = <<>> \/ Present(T, t) THEN Answers(g, Children(T, t)) ELSE Fails(g)

DoMatch(call, out, e) ==
  /\ e.r = out.r
  /\ Has(out, "v") =>
       IF call.op = "list" THEN Len(e.v) = Cardinality(ToSet(e.v)) /\ ToSet(e.v) = out.v
       ELSE e.v = out.v

----------------------------------------------------------------- (* the end *)
(* segments without ids *)
Shape(z) ==
  CASE z.k = "FILE" -> [k |-> z.k, p |-> z.p, b |-> Len(z.b)]
    [] z.k = "AUX" -> [k |-> z.k, p |-> z.p]
    [] z.k = "BLOB" -> [k |-> z.k, hn |-> z.hn, h |-> z.h, o |-> z.o, n |-> z.n, d |-> z.d]
    [] z.k = "MSTATE" -> [k |-> z.k, alg |-> z.alg, n |-> z.n, d |-> z.d]
    [] OTHER -> [k |-> z.k]
Times(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in ToSet(a) : Times(a, x) = Times(b, x)
Shapes(segs) == LET v == LiveIn(segs) IN [k \in 1..Len(v) |-> Shape(v[k])]
Expected(g) == LET q == SetToSeq(LiveSegs(g)) IN [k \in 1..Len(q) |-> Shape(q[k])]

EndsAs(g, e) ==
  /\ {Tokens(e.files[x].p) : x \in 1..Len(e.files)} = DOMAIN g.files
  /\ \A x \in 1..Len(e.files) : e.files[x].v = FileOf(g, Tokens(e.files[x].p))
  /\ {Tokens(e.names[x].p) : x \in 1..Len(e.names)} = DOMAIN g.names
  /\ \A x \in 1..Len(e.names) : e.names[x].v = g.mst[g.names[Tokens(e.names[x].p)].id]
  /\ SameBag(Shapes(e.segs), Expected(g))

Keep(s, C, c) == [st |-> IF C = {} THEN s ELSE C, bad |-> Need(C # {}, c, C08)]

DoStep(s, e) ==
  CASE e.k = "new" -> [st |-> Start, bad |-> {}]
    [] e.k = "call" -> [st |-> Invoke(s, e), bad |-> {}]
    [] e.k = "ret" -> Keep(s, Return(s, e), "no sequential order explains this result")
    [] e.k = "final" ->
         LET ok == /\ e.r = "ok"
                   /\ ~\E x \in 1..Len(e.segs) : e.segs[x].k = "BAD"
                   /\ Tiles(e.segs)
         IN IF ~ok THEN [st |-> s, bad |-> Need(FALSE, "the archive is damaged in the end", C08)]
            ELSE Keep(s, {c \in s : EndsAs(c.g, e)}, "no sequential order explains what is stored in the end")
    [] e.k = "stuck" -> [st |-> s, bad |-> Need(FALSE, "operations block each other for ever", C08)]
    [] e.k = "runs" -> [st |-> s, bad |-> {}]
==============================================================================
