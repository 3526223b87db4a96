------------------------------ MODULE ServerTrace -----------------------------
(* Recorded conversations with the real server against Session.  A line "act"
   says what the clients did and, once nothing happened any more, what they had
   received since (out) and which connections had been closed (closed).

   State: the configurations that explain everything so far.  A conversation
   that leaves what the specification decides (an absurd length) is not
   compared any further.                                                      *)
EXTENDS TraceBase, Session

Start == [confs |-> {}]

OutOf(e, c) == IF \E k \in 1..Len(e.out) : e.out[k].c = c
               THEN e.out[CHOOSE k \in 1..Len(e.out) : e.out[k].c = c].o ELSE <<>>
Given(conf, e) ==
  LET x == FoldLeft(Act, conf, e.do)
  IN [x EXCEPT !.s = [c \in DOMAIN @ |-> [@[c] EXCEPT !.obs = OutOf(e, c)]]]

Cut(s) == s.broken \/ s.dead \/ s.eof \/ s.late
Transport(s) == IF Cut(s) THEN {"C13"} ELSE {}
Early(conf) == {c \in ToSet(conf.q) : conf.timed /\ conf.f[c] \in {"opt1", "opt2"}}
(* What is wrong with a final configuration. *)
Judge(conf, e) ==
  LET ss == conf.s
      closed == ToSet(e.closed)
      mine == {c \in DOMAIN ss : ss[c].pc = "end"}
      late == {c \in mine : c \notin closed}
      extra == closed \ (mine \cup Early(conf))
  IN UNION {ss[c].mis : c \in DOMAIN ss}
     \cup UNION {IF ss[c].pc # "bad" /\ ss[c].obs # <<>>
                 THEN Need(FALSE, "more is sent than expected (" \o ss[c].pc \o ")",
                           IF ss[c].pc = "new" THEN {"C15"} ELSE Transport(ss[c]) \cup Owners(ss[c]) \cup (IF ss[c].mode = "hs" THEN {} ELSE {"C15"})) ELSE {} : c \in DOMAIN ss}
     \cup UNION {Need(FALSE, "a session that ended is not closed", Transport(ss[c]) \cup Owners(ss[c]) \cup {"C15"}) : c \in late}
     \cup UNION {Need(FALSE, "a connection is closed that should not be",
                      {"C15"} \cup (IF c \in DOMAIN ss THEN Owners(ss[c]) ELSE {})) : c \in extra}
Tidy(conf, e) ==
  LET gone == {c \in DOMAIN conf.s : conf.s[c].pc = "end"} \cup ToSet(e.closed)
  IN [conf EXCEPT !.s = Drop(@, gone), !.f = Drop(@, gone), !.q = SelectSeq(@, LAMBDA c : c \notin gone), !.up = @ \ gone]

Clean(e) ==
  Need(e.twice = 0, "a connection is closed twice", {"C15"})
  \cup Need(e.stale = 0, "a closed connection is used", {"C15"})
  \cup Need(e.stray = 0, "a descriptor is used that does not exist", {"C15"})

ActEv(z, e) ==
  LET ends == AtRest({Given(x, e) : x \in z.confs})
      wild == \E x \in ends : \E c \in DOMAIN x.s : x.s[c].pc = "wild"
      good == {x \in ends : Judge(x, e) = {}}
  IN IF wild THEN [st |-> z, bad |-> Clean(e) \cup Need(FALSE, "not decided", {})]
     ELSE IF good = {} THEN [st |-> z, bad |-> Clean(e) \cup Judge(CHOOSE x \in ends : TRUE, e)]
     ELSE [st |-> [z EXCEPT !.confs = {Tidy(x, e) : x \in good}], bad |-> Clean(e)]

NewEv(z, e) == [st |-> [confs |-> {Server([lim |-> e.lim, timed |-> e.timed, pwd |-> e.pwd, paths |-> e.paths])}], bad |-> {}]
(* all connections are gone, the server starts again *)
RebootEv(z, e) == [st |-> [z EXCEPT !.confs = {[x EXCEPT !.s = NoFun, !.f = NoFun, !.q = <<>>, !.up = {}] : x \in @}], bad |-> {}]

(* The server was shut down while clients had requests under way, each on an
   archive of its own.  The requests whose replies arrived took effect, of the
   others at most steps that are not replied to (a block that trains a state). *)
Feed(x, c, v, o) == AtRest({[x EXCEPT !.s[c].in = @ \o v, !.s[c].obs = @ \o o]})
Well(ys, c) == {y \in ys : y.s[c].pc # "bad"}
RECURSIVE Within(_, _, _, _)
Within(xs, c, v, o) ==
  IF xs = {} \/ v = <<>> THEN {}
  ELSE LET ys == UNION {Feed(x, c, <<v[1]>>, o) : x \in xs} IN ys \cup Within(Well(ys, c), c, Tail(v), <<>>)
Stopped(x, c) == [x EXCEPT !.s[c].in = <<>>, !.s[c].obs = <<>>]
RECURSIVE Answered(_, _, _)
Answered(xs, u, k) ==
  IF k > Len(u.reqs) THEN xs
  ELSE UNION {LET o == IF k = 1 THEN u.o ELSE <<>>
                  good == Well(Feed(x, u.c, u.reqs[k], o), u.c)
                  part == {Stopped(y, u.c) : y \in {x} \cup Within({x}, u.c, u.reqs[k], o)}
              IN IF good = {} THEN part
                 ELSE Answered(good, u, k + 1) \cup (IF \E y \in good : y.s[u.c].pc # "cmd" THEN part ELSE {}) : x \in xs}
StopEv(z, e) ==
  LET ends == FoldLeft(LAMBDA xs, u : Answered({[x EXCEPT !.s = [c \in DOMAIN @ |-> [@[c] EXCEPT !.obs = <<>>]]] : x \in xs}, u, 1), z.confs, e.cl)
      wild == \E x \in ends : \E c \in DOMAIN x.s : x.s[c].pc = "wild"
  IN [st |-> IF wild THEN z ELSE [z EXCEPT !.confs = ends],
      bad |-> Need(e.done, "a shutdown does not end", {"C31"})
              \cup Need(Has(e, "alive") => e.alive, "the server ends by itself", {"C15", "C31"})
              \cup (IF wild THEN Need(FALSE, "not decided", {}) ELSE {})]

(* What the archives contain in the end, read without the server. *)
Files(g) == {[t |-> t, n |-> Len(g.files[t].b)] : t \in DOMAIN g.files}
Names2(g) == {[t |-> t, alg |-> g.mst[g.names[t].id].alg, d |-> g.mst[g.names[t].id].d] : t \in DOMAIN g.names}
FilesRead(r) == {[t |-> Tokens(f.p), n |-> f.n] : f \in ToSet(r.files)}
NamesRead(r) == {[t |-> Tokens(f.p), alg |-> f.alg, d |-> f.d] : f \in ToSet(r.names)}
Odd(x, y) == {f.t : f \in (x \ y) \cup (y \ x)}
FinalEv(z, e) ==
  LET K == 1..Len(e.ar)
      x == CHOOSE y \in z.confs : TRUE
      g(k) == x.g[e.ar[k].a]
      odd == UNION {Odd(FilesRead(e.ar[k]), Files(g(k))) \cap g(k).delF : k \in K}
      oddN == UNION {Odd(NamesRead(e.ar[k]), Names2(g(k))) \cap g(k).delN : k \in K}
  IN [st |-> z,
      bad |-> Need(\A k \in K : e.ar[k].r = "ok", "an archive cannot be opened any more", {"C17", "C18"})
              \cup (IF \E k \in K : e.ar[k].r # "ok" THEN {} ELSE
                    Need(\E y \in z.confs : \A k \in K : FilesRead(e.ar[k]) = Files(y.g[e.ar[k].a]),
                         "the files of an archive", IF odd # {} THEN {"C16"} ELSE {"C17"})
                    \cup Need(\E y \in z.confs : \A k \in K : NamesRead(e.ar[k]) = Names2(y.g[e.ar[k].a]),
                         "the coding states of an archive", IF oddN # {} THEN {"C16"} ELSE {"C18"}))]

(* single maskings: of e.t with e.pwd, and of the result again *)
MaskEv(z, e) == [st |-> z, bad |-> Need(e.o = Mask(e.pwd, e.t), "masking a token", {"C14"})
                                  \cup Need(e.back = e.t, "unmasking a token", {"C14"})]

(* Tokens are drawn from all values: over enough of them every bit was once
   set and once clear (by chance a bit is missing once in 2^140 runs). *)
Spread(e) ==
  IF ~Has(e, "tokens") THEN {}
  ELSE Need(e.tokens < 150 \/ \A k \in 1..8 : e.set[k] = 255 /\ e.clear[k] = 255,
            "tokens leave out part of the values of 64 bits", {"C14"})

DoStep(z, e) ==
  CASE e.k = "new"    -> NewEv(z, e)
    [] e.k = "act"    -> ActEv(z, e)
    [] e.k = "reboot" -> RebootEv(z, e)
    [] e.k = "stop"   -> StopEv(z, e)
    [] e.k = "final"  -> FinalEv(z, e)
    [] e.k = "mask"   -> MaskEv(z, e)
    [] e.k = "stuck"  -> [st |-> z, bad |-> Need(FALSE, "the server does not go on", Everyone)]
    [] e.k = "runs"   -> [st |-> z, bad |-> Spread(e)]
==============================================================================
