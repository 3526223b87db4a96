------------------------------ MODULE StreamTrace ------------------------------
(* Whole requests of well-behaved clients, with the real codecs: what is stored
   through the server comes back.  Contents are compared byte by byte, coding
   states by digest.

   files   (archive, path) -> bytes
   names   (archive, path) -> [h, used]: what it was made from (the blocks it
           was trained with, or the digest it was written with); used: blocks may
           refer to it
   known   what a state was made from -> its digest
   tup     blocks handed out -> bytes                                        *)
EXTENDS TraceBase, Stream

A == INSTANCE Archive

Start == [bs |-> 1, alg |-> 1, files |-> NoFun, names |-> NoFun, known |-> NoFun, tup |-> <<>>]
E == {"C17"}
M == {"C18"}
Q == {"C16"}

Fed(b) == [v |-> b, d |-> ""]
Given(d) == [v |-> <<>>, d |-> d]
Key(e, f) == <<e.a, f[1]>>
Same(z, h, d) == h \in DOMAIN z.known => z.known[h] = d
Learn(z, h, d) == [z EXCEPT !.known = Put(@, h, d)]

Enc(z, e) ==
  LET free == e.p = <<>> \/ Key(e, e.p) \notin DOMAIN z.files
      there == e.m = <<>> \/ Key(e, e.m) \in DOMAIN z.names
      able == e.alg = z.alg \/ e.v = <<>>
      ok == free /\ ((there /\ able) \/ e.v = <<>>)
      bl == Blocks(e.v, z.bs)
      h == IF e.m # <<>> /\ there THEN z.names[Key(e, e.m)].h ELSE <<>>
      z1 == IF e.p = <<>> THEN z ELSE [z EXCEPT !.files = Put(@, Key(e, e.p), e.v)]
      z2 == IF e.m = <<>> \/ e.v = <<>> \/ ~e.keep THEN z1 ELSE [z1 EXCEPT !.names[Key(e, e.m)].used = TRUE]
      z3 == IF e.pb /\ e.alg = z.alg THEN [z2 EXCEPT !.tup = @ \o bl] ELSE z2
      shared == {k \in 1..Len(e.bl) : e.bl[k].alg # 0 /\ e.m # <<>>}
  IN [st |-> IF e.r # "ok" THEN z ELSE IF shared # {} THEN Learn(z3, h, e.bl[CHOOSE k \in shared : TRUE].m) ELSE z3,
      bad |-> Need(e.r = (IF ok THEN "ok" ELSE "err") \/ (e.alg # z.alg /\ e.r = "err"), "encoding: result", E)
              \cup (IF e.r # "ok" \/ ~e.pb \/ e.alg # z.alg THEN {} ELSE
                    Need(e.first = Len(z.tup) + 1 /\ Len(e.bl) = Len(bl), "encoding: number of blocks", E)
                    \cup Need(\A k \in 1..Len(e.bl) : e.bl[k].alg \in {0, z.alg}, "encoding: algorithm of a block", E)
                    \cup Need(\A k \in 1..Lesser(Len(e.bl), Len(bl)) : e.bl[k].alg = 0 => e.bl[k].d = bl[k], "encoding: raw block", E)
                    \cup Need(\A k \in shared : Same(z, h, e.bl[k].m) /\ e.bl[k].m = e.bl[CHOOSE j \in shared : TRUE].m,
                              "encoding: the shared coding state is not the one that is used", E))]

Dec(z, e) ==
  LET there == Key(e, e.p) \in DOMAIN z.files
  IN [st |-> z,
      bad |-> IF ~there THEN Need(e.r = "err", "decoding: a file that does not exist", E)
              ELSE Need(e.r = "ok", "decoding: result", E)
                   \cup Need(e.r = "ok" => e.v = z.files[Key(e, e.p)], "decoding: other bytes", E)
                   \cup Need(e.r = "ok" => e.n = Len(Blocks(z.files[Key(e, e.p)], z.bs)), "decoding: number of blocks", E)]

DecBlock(z, e) ==
  [st |-> z, bad |-> Need(e.r = "ok", "decoding a block: result", E)
                     \cup Need(e.r = "ok" => e.v = z.tup[e.i], "decoding a block: other bytes", E)]

TrainEv(z, e) ==
  LET k == Key(e, e.m)
      there == k \in DOMAIN z.names
      bl == Blocks(e.v, z.bs)
      h == (IF there THEN z.names[k].h ELSE <<>>) \o [j \in 1..Len(bl) |-> Fed(bl[j])]
      able == e.alg = z.alg \/ e.v = <<>>
      must == able /\ (there => ~z.names[k].used)
      may == able
  IN [st |-> IF e.r = "ok" /\ e.v # <<>> THEN [z EXCEPT !.names = Put(@, k, [h |-> h, used |-> FALSE])] ELSE z,
      bad |-> Need(e.r \in {"ok", "err"} /\ (must => e.r = "ok" \/ e.alg # z.alg) /\ (e.r = "ok" => may), "training: result", M)]

Read(z, e) ==
  LET k == Key(e, e.m)
      there == k \in DOMAIN z.names
  IN [st |-> IF there /\ e.r = "ok" THEN Learn(z, z.names[k].h, e.d) ELSE z,
      bad |-> IF ~there THEN Need(e.r = "err", "reading a coding state that does not exist", M)
              ELSE Need(e.r = "ok", "reading a coding state: result", M)
                   \cup Need(e.r = "ok" => e.alg = z.alg, "reading a coding state: algorithm", M)
                   \cup Need(e.r = "ok" => Same(z, z.names[k].h, e.d), "reading a coding state: other bytes", M)]

WriteEv(z, e) ==
  LET k == Key(e, e.m)
      there == k \in DOMAIN z.names
  IN [st |-> IF there \/ e.r # "ok" THEN z
             ELSE Learn([z EXCEPT !.names = Put(@, k, [h |-> <<Given(e.d)>>, used |-> FALSE])], <<Given(e.d)>>, e.d),
      bad |-> Need(e.r = (IF there THEN "err" ELSE "ok"), "writing a coding state: result", M)]

RemoveEv(z, e) ==
  LET k == Key(e, e.p)
      there == k \in DOMAIN z.files
  IN [st |-> IF there THEN [z EXCEPT !.files = Drop(@, {k})] ELSE z,
      bad |-> Need(e.r = (IF there THEN "ok" ELSE "err"), "removing a file: result", {"C16"})]

(* the tree of an archive, as archives list it *)
Tree(f, a) == [t \in {A!Tokens(k[2]) : k \in {x \in DOMAIN f : x[1] = a}} |-> 0]
Exists(z, e) ==
  LET t == A!Tokens(e.p)
  IN [st |-> z, bad |-> Need(e.r = "ok" /\ (t = <<>> \/ (e.v = 1 <=> A!Present(Tree(z.files, e.a), t))), "existence", Q)]
ListEv(z, e) ==
  LET T == Tree(IF e.fs THEN z.files ELSE z.names, e.a)
      t == A!Tokens(e.p)
  IN [st |-> z,
      bad |-> IF A!Leaf(T, t) THEN Need(e.v = <<>>, "list: a leaf has entries", Q)
              ELSE IF t # <<>> /\ ~A!Present(T, t) THEN Need(e.r = "err", "list: a place that does not exist", Q)
              ELSE Need(e.r = "ok", "list: result", Q)
                   \cup (IF e.r # "ok" THEN {} ELSE
                         Need(Len(e.v) = Cardinality(ToSet(e.v)) /\ ToSet(e.v) = A!Children(T, t), "list: entries", Q))]

DoStep(z, e) ==
  CASE e.k = "new"    -> [st |-> [Start EXCEPT !.bs = e.bs, !.alg = e.alg], bad |-> {}]
    [] e.k = "again"  -> [st |-> z, bad |-> {}]
    [] e.k = "enc"    -> Enc(z, e)
    [] e.k = "dec"    -> Dec(z, e)
    [] e.k = "decb"   -> DecBlock(z, e)
    [] e.k = "train"  -> TrainEv(z, e)
    [] e.k = "read"   -> Read(z, e)
    [] e.k = "write"  -> WriteEv(z, e)
    [] e.k = "remove" -> RemoveEv(z, e)
    [] e.k = "exists" -> Exists(z, e)
    [] e.k = "list"   -> ListEv(z, e)
    [] e.k = "stuck"  -> [st |-> z, bad |-> Need(FALSE, "the server does not go on", {"C16", "C17", "C18"})]
    [] e.k = "runs"   -> [st |-> z, bad |-> {}]
==============================================================================
