-------------------------------- MODULE Session -------------------------------
(* The server as a client sees it: sessions that read bytes and send bytes, a
   limit on how many are served, and the archives they share.

   A configuration is
     g    archive number -> logical state of that archive (module Archive, with
          delF, delN: paths whose last event was a deletion by query)
     s    connection -> session
     q    accepted or waiting connections that are not served yet, in order
     f    connection -> trouble in setting it up ("" none, "opt1", "opt2",
          "thread", "accept")
     up   connections being served
     tok  tokens drawn so far
     sent blocks handed to clients [alg, m, h, d, o]: with coding state m and
          header h, d stands for the bytes o
     lim, timed, pwd, paths: configuration of the server

   Coding-state and blob ids are pairs <<connection, n>>, so that the order of
   independent steps leaves no trace.

   Output: in `check' mode a session carries the bytes that were observed and
   that it has not accounted for yet (obs), and every send consumes them; a
   send that does not find its bytes puts a clause into mis.  In the other mode
   a send appends what it sends to `out'.                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Archive, Bitwise

CONSTANT BlockSize        \* of the algorithm below
ALG == 7                  \* a codec that is given by Fails, Shrinks and Trained
Known == {1, 2, ALG}
Refused == 238            \* a block with this byte cannot be coded

--------------------------------------------------------------- (* numbers *)
I16(b) == b[1] + 256 * b[2]
Huge(b) == b[3] > 15 \/ \E k \in 4..8 : b[k] # 0
I64(b) == b[1] + 256 * b[2] + 65536 * b[3]
U64(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>
U16(n) == <<n % 256, n \div 256>>
CStr(b) == IF \E k \in 1..Len(b) : b[k] = 0
           THEN SubSeq(b, 1, (CHOOSE k \in 1..Len(b) : b[k] = 0 /\ \A j \in 1..(k - 1) : b[j] # 0) - 1) ELSE b
Lesser(x, y) == IF x < y THEN x ELSE y
Mask(pwd, t) == [k \in 1..8 |-> FoldLeft(LAMBDA a, p : IF (p - 1) % 8 = k - 1 THEN a ^^ pwd[p] ELSE a, t[k], [p \in 1..Len(pwd) |-> p])]

---------------------------------------------------------------- (* codec *)
Fails(b) == \E k \in 1..Len(b) : b[k] = Refused
Shrinks(b) == Len(b) >= 2 /\ \A k \in 1..Len(b) : b[k] = b[1]
Sum(b) == FoldLeft(LAMBDA a, x : (a + x) % 256, 0, b)
Trained(old, b) == LET n == Append(old, Sum(b)) IN IF Len(n) > 4 THEN Tail(n) ELSE n

------------------------------------------------------------- (* sessions *)
NoReg == [a |-> 0, m |-> <<>>, t |-> <<>>, pb |-> FALSE, alg |-> 0, rem |-> 0, blk |-> <<>>, ids |-> <<>>, k |-> 0,
          fail |-> FALSE, ms |-> <<>>, h |-> <<>>, d |-> <<>>, old |-> <<>>, inj |-> <<>>]
NewSession == [pc |-> "new", need |-> 0, ctx |-> "", mode |-> "hs", prev |-> "hs", in |-> <<>>, obs |-> <<>>, out |-> <<>>,
               check |-> TRUE, budget |-> -1, broken |-> FALSE, eof |-> FALSE, late |-> FALSE, dead |-> FALSE,
               mis |-> {}, tok |-> <<>>, n |-> 0, r |-> NoReg]

Of(mode) == CASE mode = "hs" -> {"C14"} [] mode = "cmd" -> {"C15"} [] mode = "q" -> {"C16"}
              [] mode = "ed" -> {"C17"} [] mode = "m" -> {"C18"}
Owners(s) == Of(s.mode) \cup (IF s.mode = "cmd" THEN Of(s.prev) ELSE {})
Gone(s) == s.pc \in {"end", "bad", "wild"}
Wrong(s, c, p) == [s EXCEPT !.pc = "bad", !.mis = @ \cup {[c |-> c \o " (" \o s.pc \o ")", p |-> p]}]
End(s) == IF s.pc = "bad" THEN s ELSE [s EXCEPT !.pc = "end"]
Wild(s) == [s EXCEPT !.pc = "wild"]

(* Sending.  Each of these yields [s, ok, v]; after a wrong byte s is `bad`.
   A connection that fails after some more bytes has budget >= 0.             *)
TakeAny(s, n, what, p) ==
  IF s.pc = "bad" THEN [s |-> s, ok |-> FALSE, v |-> <<>>]
  ELSE IF s.dead \/ s.broken THEN [s |-> s, ok |-> FALSE, v |-> <<>>]
  ELSE IF Len(s.obs) >= n THEN
       [s |-> [s EXCEPT !.obs = SubSeq(@, n + 1, Len(@)), !.budget = IF @ < 0 THEN @ ELSE @ - n],
        ok |-> TRUE, v |-> SubSeq(s.obs, 1, n)]
  ELSE IF s.budget >= 0 /\ s.budget = Len(s.obs) THEN
       [s |-> [s EXCEPT !.obs = <<>>, !.budget = 0, !.broken = TRUE], ok |-> FALSE, v |-> s.obs]
  ELSE [s |-> Wrong(s, what \o ": missing or cut short", p \cup {"C15"}), ok |-> FALSE, v |-> <<>>]
Take(s, n, what, p) ==
  IF s.check THEN TakeAny(s, n, what, p)
  ELSE IF s.dead \/ s.broken THEN [s |-> s, ok |-> FALSE, v |-> <<>>]
  ELSE [s |-> [s EXCEPT !.out = Append(@, <<what, n>>)], ok |-> TRUE, v |-> [k \in 1..n |-> 0]]
Bytes(s, b, what, p) ==
  IF ~s.check /\ ~(s.dead \/ s.broken) THEN [s |-> [s EXCEPT !.out = Append(@, b)], ok |-> TRUE, v |-> b]
  ELSE LET r == Take(s, Len(b), what, p)
       IN IF r.s.pc # "bad" /\ ~IsPrefix(r.v, b)
          THEN [s |-> Wrong(s, what \o ": differs", p \cup (IF b[1] = 0 /\ r.v[1] \notin {0, 255} THEN {"C13"} ELSE {})), ok |-> FALSE, v |-> <<>>]
          ELSE r
Then(r, F(_)) == IF r.ok THEN F(r.s) ELSE r
Frame(s, b, what) == Bytes(s, <<0>> \o b, what, Owners(s))
AnyFrame(s, n, what) == Then(Bytes(s, <<0>>, what, Owners(s)), LAMBDA z : Take(z, n, what, Owners(s)))
(* a length of eight bytes and that many bytes, both framed; v is the data *)
Lengthy(s, what) ==
  LET r == AnyFrame(s, 8, what)
  IN IF ~r.ok THEN r
     ELSE IF Huge(r.v) THEN [s |-> Wrong(s, what \o ": impossible length", Owners(s)), ok |-> FALSE, v |-> <<>>]
     ELSE AnyFrame(r.s, I64(r.v), what)
Success(s) ==
  IF ~s.check THEN Bytes(s, <<"success">>, "success reply", Owners(s))
  ELSE LET r == AnyFrame(s, 2, "success reply") IN IF ~r.ok THEN r ELSE AnyFrame(r.s, I16(r.v), "success reply")
Report(s) ==   \* failures are ignored here
  LET p == Owners(s)
  IN IF ~s.check THEN Bytes(s, <<"error">>, "error reply", p).s
     ELSE LET r1 == Bytes(s, <<255>>, "error reply", p)
              r2 == IF r1.ok THEN Take(r1.s, 2, "error reply", p) ELSE r1
              r3 == IF r2.ok THEN Take(r2.s, I16(r2.v), "error reply", p) ELSE r2
          IN r3.s
(* the first byte that is still to be accounted for, -1 if there is none *)
Peek(s) == IF s.obs = <<>> THEN -1 ELSE s.obs[1]

(* Receiving: one byte 0 announces that the server waits for n bytes. *)
Wait(s, pc, n) == [s EXCEPT !.pc = pc, !.need = n]
Ask(s, pc, n) ==
  IF s.pc = "bad" THEN s
  ELSE LET r == Bytes([s EXCEPT !.pc = pc], <<0>>, "sync byte", Owners(s)) IN IF r.ok THEN Wait(r.s, pc, n) ELSE End(r.s)
Prompt(s) == LET z == IF s.mode = "cmd" THEN s ELSE [s EXCEPT !.prev = s.mode]
             IN Ask([z EXCEPT !.mode = "cmd", !.r = NoReg, !.ctx = ""], "cmd", 1)
Fault(s) == IF s.pc = "bad" THEN s ELSE Prompt(Report(s))
Again(s) == Ask(Report(s), s.ctx, 1)      \* an invalid word inside a request
Back(s) == Ask(s, s.ctx, 1)
Done(s) == LET r == Success(s) IN IF r.ok THEN Prompt(r.s) ELSE End(r.s)
After(r, F(_)) == IF r.ok THEN F(r.s) ELSE End(r.s)

Begin(s, conf) ==
  LET r == AnyFrame(s, 8, "token")
  IN IF ~r.ok THEN End(r.s)
     ELSE Ask([r.s EXCEPT !.tok = Mask(conf.pwd, r.v)], "hs", 8)

(* 0: no archive can be had under this path; -1: not known *)
PathOf(conf, p) == IF \E k \in 1..Len(conf.paths) : conf.paths[k].p = p
                   THEN conf.paths[CHOOSE k \in 1..Len(conf.paths) : conf.paths[k].p = p].id ELSE -1

(* Raw streams: the next block, or what follows the last one. *)
NextBlock(s, more, last) ==
  IF s.r.rem = 0 THEN Wait(s, last, 0)
  ELSE IF s.r.alg \notin Known /\ Peek(s) = 255 THEN Fault(s)
  ELSE Wait(s, more, IF s.r.alg = ALG THEN Lesser(BlockSize, s.r.rem) ELSE s.r.rem)
Streaming(s, b, more, last) ==
  IF Huge(b) \/ s.r.alg \in Known \ {ALG} THEN Wild(s)
  ELSE After(Bytes(s, <<0>>, "sync byte", Owners(s)),
             LAMBDA z : NextBlock([z EXCEPT !.r.rem = I64(b), !.r.ids = <<>>, !.r.fail = FALSE], more, last))
Block(s, b, job, more, last) ==
  LET z == [s EXCEPT !.r.blk = b, !.r.rem = @ - Len(b)]
  IN IF s.r.fail THEN NextBlock(z, more, last) ELSE Wait(z, job, 0)

None(x) == x = <<>>
The(x) == x[1]
OnCmd(s, w) ==
  CASE w = 0   -> Ask(s, "st", 1)
    [] w = 1   -> Ask([s EXCEPT !.mode = "q", !.ctx = "q"], "q", 1)
    [] w = 2   -> Done(s)
    [] w = 255 -> End(s)
    [] OTHER   -> Fault(s)
OnStream(s, w) ==
  CASE w = 0 -> Ask([s EXCEPT !.mode = "ed", !.ctx = "e"], "e", 1)
    [] w = 1 -> Ask([s EXCEPT !.mode = "ed", !.ctx = "d"], "d", 1)
    [] w = 2 -> Ask([s EXCEPT !.mode = "m", !.ctx = "w"], "w", 1)
    [] w = 3 -> Ask([s EXCEPT !.mode = "m", !.ctx = "r"], "r", 1)
    [] OTHER -> Fault(s)
OnQuery(s, w) ==
  CASE w = 0 -> Ask(s, "al", 2)
    [] w = 7 -> Ask(s, "tl", 2)
    [] w = 3 -> Back([s EXCEPT !.r.pb = TRUE])
    [] w = 6 -> After(AnyFrame(s, 8, "memory in use"), Prompt)
    [] w \in {1, 2, 8} -> IF ~s.r.pb \/ s.r.a = 0 \/ None(s.r.t) THEN Fault(s) ELSE Wait([s EXCEPT !.r.k = w], "q.do", 0)
    [] w \in {4, 5}    -> IF s.r.a = 0 \/ None(s.r.t) THEN Fault(s) ELSE Wait([s EXCEPT !.r.k = w], "q.do", 0)
    [] OTHER -> Fault(s)
OnEncode(s, w) ==
  CASE w = 0 -> IF s.r.alg = 0 THEN Fault(s)
                ELSE IF s.r.a # 0 /\ ~None(s.r.t) THEN Wait(s, "e.ex", 0)
                ELSE IF ~s.r.pb /\ None(s.r.t) THEN Fault(s)
                ELSE Ask(s, "e.size", 8)
    [] w = 1 -> Ask(s, "ml", 2)
    [] w = 2 -> Ask(s, "al", 2)
    [] w = 3 -> Ask(s, "tl", 2)
    [] w = 4 -> Ask(s, "alg", 8)
    [] w = 5 -> Back([s EXCEPT !.r.pb = TRUE])
    [] w = 6 -> IF s.r.alg = 0 \/ None(s.r.m) \/ s.r.a = 0 THEN Fault([s EXCEPT !.mode = "m"])
                ELSE Ask([s EXCEPT !.mode = "m"], "t.size", 8)
    [] OTHER -> Again(s)
OnDecode(s, w) ==
  CASE w = 0 -> IF ~s.r.pb \/ s.r.a = 0 \/ None(s.r.t) THEN Fault(s) ELSE Wait(s, "d.en", 0)
    [] w = 1 -> IF s.r.a = 0 THEN Fault(s) ELSE Ask(s, "ml", 2)
    [] w = 2 -> Ask(s, "al", 2)
    [] w = 3 -> Ask(s, "tl", 2)
    [] w = 4 -> Ask(s, "alg", 8)
    [] w = 5 -> Back([s EXCEPT !.r.pb = TRUE])
    [] w = 6 -> Ask(s, "x.n", 8)
    [] w = 7 -> IF ~s.r.pb \/ (None(s.r.ms) /\ None(s.r.m)) THEN Fault(s) ELSE Ask(s, "b.hn", 8)
    [] OTHER -> Again(s)
OnWrite(s, w) ==
  CASE w = 0 -> Ask(s, "al", 2)
    [] w = 1 -> Ask(s, "ml", 2)
    [] w = 2 -> IF s.r.a = 0 \/ None(s.r.m) THEN Fault(s) ELSE Ask(s, "w.alg", 8)
    [] OTHER -> Fault(s)
OnRead(s, w) ==
  CASE w = 0 -> Ask(s, "al", 2)
    [] w = 1 -> Ask(s, "ml", 2)
    [] w = 3 -> Back([s EXCEPT !.r.pb = TRUE])
    [] w = 2 -> IF s.r.a = 0 \/ None(s.r.m) \/ ~s.r.pb THEN Fault(s) ELSE Wait(s, "r.do", 0)
    [] OTHER -> Fault(s)

(* Bytes b arrived at pc. *)
Got(conf, s, b) ==
  CASE s.pc = "hs"  -> IF b = s.tok THEN LET r == Success(s) IN IF r.ok THEN Prompt(r.s) ELSE End(r.s) ELSE End(s)
    [] s.pc = "cmd" -> OnCmd(s, b[1])
    [] s.pc = "st"  -> OnStream(s, b[1])
    [] s.pc = "q"   -> OnQuery(s, b[1])
    [] s.pc = "e"   -> OnEncode(s, b[1])
    [] s.pc = "d"   -> OnDecode(s, b[1])
    [] s.pc = "w"   -> OnWrite(s, b[1])
    [] s.pc = "r"   -> OnRead(s, b[1])
    [] s.pc = "al"  -> Ask(s, "av", I16(b))
    [] s.pc = "av"  -> LET id == PathOf(conf, CStr(b)) IN IF id = -1 THEN Wild(s) ELSE IF id = 0 THEN Fault(s) ELSE Back([s EXCEPT !.r.a = id])
    [] s.pc = "tl"  -> Ask(s, "tv", I16(b))
    [] s.pc = "tv"  -> IF ValidPath(CStr(b)) THEN Back([s EXCEPT !.r.t = <<CStr(b)>>]) ELSE Fault(s)
    [] s.pc = "ml"  -> Ask(s, "mv", I16(b))
    [] s.pc = "mv"  -> Back([s EXCEPT !.r.m = <<CStr(b)>>])
    [] s.pc = "alg" -> IF Huge(b) THEN Wild(s) ELSE Back([s EXCEPT !.r.alg = I64(b)])
    [] s.pc = "e.size" -> Streaming(s, b, "e.raw", "e.fin")
    [] s.pc = "e.raw"  -> Block(s, b, "e.inj", "e.raw", "e.fin")
    [] s.pc = "t.size" -> Streaming(s, b, "t.raw", "t.fin")
    [] s.pc = "t.raw"  -> Block(s, b, "t.ex", "t.raw", "t.fin")
    [] s.pc = "x.n"  -> IF Huge(b) THEN Wild(s) ELSE Ask(s, "x.d", I64(b))
    [] s.pc = "x.d"  -> Back([s EXCEPT !.r.ms = <<b>>])
    [] s.pc = "b.hn" -> IF Huge(b) THEN Wild(s) ELSE Ask(s, "b.h", I64(b))
    [] s.pc = "b.h"  -> Ask([s EXCEPT !.r.h = b], "b.n", 8)
    [] s.pc = "b.n"  -> IF Huge(b) THEN Wild(s) ELSE Ask(s, "b.d", I64(b))
    [] s.pc = "b.d"  -> Ask([s EXCEPT !.r.d = b], "b.o", 8)
    [] s.pc = "b.o"  -> IF Huge(b) THEN Wild(s) ELSE Wait([s EXCEPT !.r.rem = I64(b)], "b.do", 0)
    [] s.pc = "w.alg" -> IF Huge(b) THEN Wild(s) ELSE Ask([s EXCEPT !.r.alg = I64(b)], "w.n", 8)
    [] s.pc = "w.n"   -> IF Huge(b) THEN Wild(s) ELSE Ask(s, "w.d", I64(b))
    [] s.pc = "w.d"   -> Wait([s EXCEPT !.r.d = b], "w.do", 0)

----------------------------------------------------- (* shared-state steps *)
Shared == {"q.do", "e.ex", "e.inj", "e.wr", "e.fin", "t.ex", "t.rd", "t.rp", "t.fin", "d.en", "d.blk", "b.do", "w.do", "r.do"}
Names(g, p) == LET t == Tokens(p) IN Leaf(g.names, t) /\ ValidPath(p)
State(g, p) == g.mst[g.names[Tokens(p)].id]
Fresh(c, s) == <<c, s.n>>

(* When an entry that must not be there is, or one that must is not, the
   property depends on what happened to the path last.                        *)
EntryMode(s, del, t) == IF t \in del THEN [s EXCEPT !.mode = "q"] ELSE s
ModeOf(s, m) == [s EXCEPT !.mode = m]

List(s, T, t) ==
  LET want == Children(T, t)
      leaf == Leaf(T, t)
  IN IF ~s.check THEN (IF t = <<>> \/ Present(T, t) THEN After(Bytes(s, <<"list", want>>, "list", {}), Prompt) ELSE Fault(s))
     ELSE IF ~(t = <<>> \/ Present(T, t)) \/ (leaf /\ Peek(s) = 255) THEN Fault(s)
     ELSE LET n == AnyFrame(s, 8, "list: count")
              one(a) ==
                IF ~a.r.ok THEN a
                ELSE LET l == AnyFrame(a.r.s, 2, "list: entry")
                         e == IF l.ok THEN AnyFrame(l.s, I16(l.v), "list: entry") ELSE l
                         k == IF e.ok THEN AnyFrame(e.s, 1, "list: entry") ELSE e
                     IN [r |-> k, v |-> IF k.ok THEN Append(a.v, [e |-> e.v, leaf |-> k.v = <<1>>]) ELSE a.v]
          IN IF ~n.ok THEN End(n.s)
             ELSE IF Huge(n.v) \/ I64(n.v) # (IF leaf THEN 0 ELSE Cardinality(want)) THEN Wrong(s, "list: wrong count", Owners(s))
             ELSE LET r == FoldLeft(LAMBDA a, x : one(a), [r |-> n, v |-> <<>>], [k \in 1..I64(n.v) |-> k])
                  IN IF r.r.ok THEN (IF ToSet(r.v) = want \/ leaf THEN Prompt(r.r.s) ELSE Wrong(s, "list: wrong entries", Owners(s)))
                     ELSE IF ToSet(r.v) \subseteq want THEN End(r.r.s) ELSE Wrong(s, "list: wrong entries", Owners(s))

(* Each yields [s, g] with g the state of the session's archive. *)
QueryStep(s, g) ==
  LET p == The(s.r.t)
      t == Tokens(p)
      same(z) == [s |-> z, g |-> g]
  IN CASE s.r.k = 1 -> same(After(Frame(s, <<IF Present(g.files, t) THEN 1 ELSE 0>>, "existence"), Prompt))
       [] s.r.k = 2 -> same(List(s, g.files, t))
       [] s.r.k = 8 -> same(List(s, g.names, t))
       [] s.r.k = 4 -> IF RemoveFileOK(g, p) THEN [s |-> Prompt(s), g |-> [RemoveFile(g, p) EXCEPT !.delF = @ \cup {t}]] ELSE same(Fault(s))
       [] s.r.k = 5 -> IF UninstallOK(g, p) THEN [s |-> Prompt(s), g |-> [Uninstall(g, p) EXCEPT !.delN = @ \cup {t}]] ELSE same(Fault(s))

(* Encoding one block: look up the shared coding state, then store and return. *)
Injected(s, g) ==   \* the shared state, <<>> if the lookup fails
  IF s.r.a = 0 \/ ~Names(g, The(s.r.m)) THEN <<>>
  ELSE LET x == State(g, The(s.r.m)) IN IF x.alg # s.r.alg THEN <<>> ELSE <<[id |-> g.names[Tokens(The(s.r.m))].id, d |-> x.d]>>
EncodeLookup(s, g) ==
  LET i == IF None(s.r.m) THEN <<>> ELSE Injected(s, g)
      ok == None(s.r.m) \/ ~None(i)
  IN IF ok /\ s.r.alg = ALG /\ ~Fails(s.r.blk) /\ (s.r.a # 0 \/ s.r.pb)
     THEN Wait([s EXCEPT !.r.inj = i], "e.wr", 0)
     ELSE NextBlock([s EXCEPT !.r.fail = TRUE], "e.raw", "e.fin")
Returned(s, shrunk) ==   \* the frames of a block that is returned to the client: [s, ok, v]
  LET a == AnyFrame(s, 8, "block: algorithm")
      m == IF a.ok THEN Lengthy(a.s, "block: coding state") ELSE a
      h == IF m.ok THEN Lengthy(m.s, "block: header") ELSE m
      d == IF h.ok THEN Lengthy(h.s, "block: data") ELSE h
      p == Owners(s)
  IN IF ~s.check THEN Bytes(s, <<"block", s.r.blk>>, "block", p)
     ELSE IF ~d.ok THEN d
     ELSE IF Huge(a.v) \/ I64(a.v) # (IF shrunk THEN s.r.alg ELSE 0) THEN [d EXCEPT !.s = Wrong(s, "block: wrong algorithm", p), !.ok = FALSE]
     ELSE IF shrunk /\ ~None(s.r.inj) /\ m.v # The(s.r.inj).d THEN [d EXCEPT !.s = Wrong(s, "block: not the shared coding state", p), !.ok = FALSE]
     ELSE IF ~shrunk /\ d.v # s.r.blk THEN [d EXCEPT !.s = Wrong(s, "block: raw data differs", p), !.ok = FALSE]
     ELSE [d EXCEPT !.v = [alg |-> I64(a.v), m |-> IF shrunk THEN m.v ELSE <<>>, h |-> IF shrunk THEN h.v ELSE <<>>, d |-> d.v, o |-> s.r.blk]]
EncodeStore(c, s, g) ==   \* [s, g, sent]
  LET shrunk == Shrinks(s.r.blk)
      shared == shrunk /\ ~None(s.r.inj)
      lost == s.r.a # 0 /\ shared /\ The(s.r.inj).id \notin DOMAIN g.mst
      g1 == IF s.r.a = 0 \/ lost THEN g
            ELSE IF shared THEN Write(g, [o |-> s.r.blk, ms |-> The(s.r.inj).id], Fresh(c, s))
            ELSE Write(Add(g, [alg |-> IF shrunk THEN ALG ELSE 0, d |-> <<>>], Fresh(c, s)), [o |-> s.r.blk, ms |-> Fresh(c, s)], Fresh(c, s))
      s1 == IF s.r.a = 0 \/ lost THEN s ELSE [s EXCEPT !.n = @ + 1, !.r.ids = Append(@, Fresh(c, s))]
      r == IF s.r.pb /\ ~lost THEN Returned(s1, shrunk) ELSE [s |-> s1, ok |-> TRUE, v |-> <<>>]
      z == IF ~r.ok THEN End(r.s) ELSE IF lost THEN [r.s EXCEPT !.r.fail = TRUE] ELSE r.s
  IN [s |-> IF Gone(z) THEN z ELSE NextBlock(z, "e.raw", "e.fin"), g |-> g1,
      sent |-> IF s.r.pb /\ ~lost /\ r.ok /\ s.check THEN {r.v} ELSE {}]
EncodeFinish(s, g) ==
  IF s.r.fail THEN [s |-> Fault(s), g |-> g]
  ELSE IF s.r.a = 0 \/ None(s.r.t) THEN [s |-> Done(s), g |-> g]
  ELSE LET p == The(s.r.t) IN
       IF EntryOK(g, p) THEN [s |-> Done(s), g |-> [Entry(g, p, s.r.ids) EXCEPT !.delF = @ \ {Tokens(p)}]]
       ELSE [s |-> Fault(EntryMode(s, g.delF, Tokens(p))), g |-> g]

(* Training with one block. *)
TrainLook(s, g) ==
  IF Present(g.names, Tokens(The(s.r.m))) \/ Tokens(The(s.r.m)) = <<>> THEN Wait(s, "t.rd", 0)
  ELSE Wait([s EXCEPT !.r.old = <<>>], "t.rp", 0)
TrainFail(s) == NextBlock([s EXCEPT !.r.fail = TRUE], "t.raw", "t.fin")
TrainRead(s, g) ==
  IF Names(g, The(s.r.m)) THEN Wait([s EXCEPT !.r.old = LET x == State(g, The(s.r.m)) IN IF x.alg = 0 THEN <<>> ELSE x.d], "t.rp", 0) ELSE TrainFail(s)
TrainReplace(c, s, g) ==
  LET p == The(s.r.m)
      t == Tokens(p)
      free == IF Names(g, p) THEN (IF UninstallOK(g, p) THEN <<Uninstall(g, p)>> ELSE <<>>) ELSE <<g>>
      ok == s.r.alg = ALG /\ ~Fails(s.r.blk) /\ ValidPath(p) /\ ~None(free) /\ InstallOK(The(free), p)
  IN IF ok THEN [s |-> NextBlock([s EXCEPT !.n = @ + 1], "t.raw", "t.fin"),
                 g |-> [Install(The(free), p, [alg |-> ALG, d |-> Trained(s.r.old, s.r.blk)], Fresh(c, s)) EXCEPT !.delN = @ \ {t}]]
     ELSE [s |-> TrainFail(s), g |-> g]

(* Decoding a file. *)
DecodeBlock(s) == IF s.r.k > Len(s.r.ids) THEN Done(s) ELSE Wait(s, "d.blk", 0)
DecodeEntry(s, g) ==
  LET t == Tokens(The(s.r.t))
  IN IF ~Leaf(g.files, t) THEN Fault(EntryMode(s, g.delF, t))
     ELSE After(Frame(s, U64(Len(g.files[t].b)), "number of blocks"),
                LAMBDA z : DecodeBlock([z EXCEPT !.r.ids = g.files[t].b, !.r.k = 1]))
DecodeNext(s, g) ==
  IF s.r.ids[s.r.k] \notin DOMAIN g.blobs THEN Fault(s)
  ELSE LET o == g.blobs[s.r.ids[s.r.k]].o
           r1 == Frame(s, U64(Len(o)), "decoded size")
           r2 == IF r1.ok THEN Frame(r1.s, o, "decoded block") ELSE r1
       IN IF r2.ok THEN DecodeBlock([r2.s EXCEPT !.r.k = @ + 1]) ELSE End(r2.s)

(* Decoding a block that the client sends. *)
DecodeGiven(s, g, sent) ==
  LET addr == ~None(s.r.m) /\ s.r.alg # 0
      ok == addr => s.r.a # 0 /\ Names(g, The(s.r.m))
      m == IF s.r.alg = 0 THEN <<>> ELSE IF addr THEN State(g, The(s.r.m)).d ELSE IF None(s.r.ms) THEN <<>> ELSE The(s.r.ms)
      known == {x \in sent : x.alg = s.r.alg /\ x.d = s.r.d /\ Len(x.o) = s.r.rem /\ (x.alg # 0 => x.m = m /\ x.h = s.r.h)}
  IN IF ~ok \/ s.r.alg \notin Known \cup {0} THEN Fault(s)
     ELSE IF known # {} THEN
          LET o == (CHOOSE x \in known : TRUE).o
              r1 == Frame(s, U64(Len(o)), "decoded size")
              r2 == IF r1.ok THEN Frame(r1.s, o, "decoded block") ELSE r1
          IN After(r2, Done)
     ELSE IF s.r.alg # ALG THEN Wild(s)
     ELSE IF ~s.check \/ Peek(s) = 255 THEN Fault(s)
     ELSE After(Lengthy(s, "decoded block"), Done)

WriteState(c, s, g) ==
  LET p == The(s.r.m)
  IN IF InstallOK(g, p)
     THEN [s |-> Done([s EXCEPT !.n = @ + 1]),
           g |-> [Install(g, p, [alg |-> s.r.alg, d |-> s.r.d], Fresh(c, s)) EXCEPT !.delN = @ \ {Tokens(p)}]]
     ELSE [s |-> Fault(EntryMode(s, g.delN, Tokens(p))), g |-> g]
ReadState(s, g) ==
  LET t == Tokens(The(s.r.m))
  IN IF ~NameOK(g, The(s.r.m)) THEN Fault(EntryMode(s, g.delN, t))
     ELSE LET x == g.mst[g.names[t].id]
              r1 == Frame(s, U64(x.alg), "algorithm of the coding state")
              r2 == IF r1.ok THEN Frame(r1.s, U64(Len(x.d)), "length of the coding state") ELSE r1
              r3 == IF r2.ok THEN Frame(r2.s, x.d, "coding state") ELSE r2
          IN IF r3.ok THEN Done(r3.s) ELSE End(r3.s)

NoArchive == [files |-> NoFun, names |-> NoFun, blobs |-> NoFun, mst |-> NoFun, delF |-> {}, delN |-> {}]
SharedStep(conf, c) ==
  LET s == conf.s[c]
      a == s.r.a
      g == IF a = 0 THEN NoArchive ELSE conf.g[a]
      only(z) == [s |-> z, g |-> g, sent |-> {}]
      both(x) == [s |-> x.s, g |-> x.g, sent |-> {}]
      r == CASE s.pc = "q.do"  -> both(QueryStep(s, g))
             [] s.pc = "e.ex"  -> only(IF Present(g.files, Tokens(The(s.r.t))) THEN Fault(EntryMode(s, g.delF, Tokens(The(s.r.t))))
                                       ELSE Ask(s, "e.size", 8))
             [] s.pc = "e.inj" -> only(EncodeLookup(s, g))
             [] s.pc = "e.wr"  -> EncodeStore(c, s, g)
             [] s.pc = "e.fin" -> both(EncodeFinish(s, g))
             [] s.pc = "t.ex"  -> only(TrainLook(s, g))
             [] s.pc = "t.rd"  -> only(TrainRead(s, g))
             [] s.pc = "t.rp"  -> both(TrainReplace(c, s, g))
             [] s.pc = "t.fin" -> only(IF s.r.fail THEN Fault(s) ELSE Done(s))
             [] s.pc = "d.en"  -> only(DecodeEntry(s, g))
             [] s.pc = "d.blk" -> only(DecodeNext(s, g))
             [] s.pc = "b.do"  -> only(DecodeGiven(s, g, conf.sent))
             [] s.pc = "w.do"  -> both(WriteState(c, s, g))
             [] s.pc = "r.do"  -> only(ReadState(s, g))
  IN [conf EXCEPT !.s[c] = r.s, !.sent = @ \cup r.sent, !.g = IF a = 0 THEN @ ELSE [@ EXCEPT ![a] = r.g]]

------------------------------------------------------ (* steps of the server *)
Ended(conf) == {c \in conf.up : Gone(conf.s[c])}
CanAdmit(conf) == conf.q # <<>> /\ Cardinality(conf.up) < conf.lim
Waiting(s) == ~Gone(s) /\ s.pc \notin Shared
CanReceive(s) == Waiting(s) /\ (s.dead \/ Len(s.in) >= s.need \/ s.eof \/ s.late)
Receive(conf, s) ==
  IF s.need = 0 THEN Got(conf, s, <<>>)
  ELSE IF s.dead \/ Len(s.in) < s.need THEN End(s)
  ELSE Got(conf, [s EXCEPT !.in = SubSeq(@, s.need + 1, Len(@))], SubSeq(s.in, 1, s.need))

Admit(conf) ==
  LET c == Head(conf.q)
      rest == [conf EXCEPT !.q = Tail(@)]
      z == conf.s[c]
  IN IF conf.f[c] = "accept" THEN [rest EXCEPT !.s = Drop(@, {c}), !.f = Drop(@, {c})]
     ELSE IF conf.f[c] = "thread" \/ (conf.timed /\ conf.f[c] \in {"opt1", "opt2"})
          THEN [rest EXCEPT !.s[c] = End(z)]
     ELSE LET b == Begin(z, conf)
          IN IF z.check /\ b.pc # "bad" /\ b.tok # <<>> /\ b.tok \in conf.tok
             THEN [rest EXCEPT !.s[c] = Wrong(b, "the token was drawn before", {"C14"}), !.up = @ \cup {c}]
             ELSE [rest EXCEPT !.s[c] = b, !.up = @ \cup {c}, !.tok = @ \cup (IF b.tok = <<>> THEN {} ELSE {b.tok})]

(* Steps that do not touch the archives and commute with everything else, as one deterministic successor. *)
HasLocal(conf) == Ended(conf) # {} \/ CanAdmit(conf) \/ \E c \in conf.up : CanReceive(conf.s[c])
LocalStep(conf) ==
  IF Ended(conf) # {} THEN [conf EXCEPT !.up = @ \ Ended(conf)]
  ELSE IF CanAdmit(conf) THEN Admit(conf)
  ELSE LET c == CHOOSE x \in conf.up : CanReceive(conf.s[x]) IN [conf EXCEPT !.s[c] = Receive(conf, @)]
SharedSteps(conf) == {SharedStep(conf, c) : c \in {x \in conf.up : ~Gone(conf.s[x]) /\ conf.s[x].pc \in Shared}}
Successors(conf) == IF HasLocal(conf) THEN {LocalStep(conf)} ELSE SharedSteps(conf)

(* All configurations in which nothing can happen any more: local steps first,
   then the archive steps in every order.                                     *)
RECURSIVE Calm(_)
Calm(conf) == IF HasLocal(conf) THEN Calm(LocalStep(conf)) ELSE conf
RECURSIVE Rest(_, _)
Rest(todo, done) ==
  IF todo = {} THEN done
  ELSE LET nx == {<<x, SharedSteps(x)>> : x \in todo}
       IN Rest({Calm(y) : y \in UNION {n[2] : n \in nx}}, done \cup {n[1] : n \in {m \in nx : m[2] = {}}})
AtRest(confs) == Rest({Calm(x) : x \in confs}, {})

------------------------------------------------------------- (* the clients *)
Server(cfg) ==
  [g |-> [a \in {1, 2} \cup ({cfg.paths[k].id : k \in DOMAIN cfg.paths} \ {0}) |-> NoArchive], s |-> NoFun, q |-> <<>>, f |-> NoFun, up |-> {}, tok |-> {}, sent |-> {},
   lim |-> cfg.lim, timed |-> cfg.timed, pwd |-> cfg.pwd, paths |-> cfg.paths]
Connect(conf, c, fault, check) ==
  [conf EXCEPT !.s = Put(@, c, [NewSession EXCEPT !.check = check]), !.f = Put(@, c, fault), !.q = Append(@, c)]
Act(conf, d) ==
  LET c == d.c IN
  CASE d.a = "connect" -> Connect(conf, c, d.f, TRUE)
    [] d.a = "send"    -> [conf EXCEPT !.s[c].in = @ \o d.v]
    [] d.a = "eof"     -> [conf EXCEPT !.s[c].eof = TRUE]
    [] d.a = "stall"   -> [conf EXCEPT !.s[c].late = @ \/ conf.timed]
    [] d.a = "drop"    -> [conf EXCEPT !.s[c].dead = TRUE]
    [] d.a = "outfail" -> [conf EXCEPT !.s[c].budget = d.n]
==============================================================================
