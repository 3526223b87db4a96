----------------------------- MODULE ShutdownTrace -----------------------------
(* Archives that are closed, one by one or by the provider of a server that
   shuts down, while sessions use them and others wait for them.
     g     file -> archive;   shut: files that were closed for good
     own   file -> "none", "in" (the sessions' instance), "out" (somebody else) *)
EXTENDS ArchiveLinearTrace

C31 == {"C31"}
Fs == {"x.hz", "y.hz"}
ShutStart == Explained([g |-> [f \in Fs |-> Fresh0], own |-> [f \in Fs |-> "none"], shut |-> {}])

Fine(z) == {[g |-> z, out |-> [r |-> "ok"]]}
Refused(z) == {[g |-> z, out |-> [r |-> "err"]], [g |-> z, out |-> [r |-> "gone"]]}
Of(z, f, S) == {[g |-> [z EXCEPT !.g[f] = x.g], out |-> x.out] : x \in S}
(* no outcome: it has to wait *)
ShutApply(z, e) ==
  LET f == e.f
  IN CASE e.op = "provide" -> IF f \in z.shut THEN Refused(z)
                              ELSE IF z.own[f] = "out" THEN {} ELSE Fine([z EXCEPT !.own[f] = "in"])
       [] e.op = "close" -> Fine([z EXCEPT !.shut = @ \cup {f}, !.own[f] = IF @ = "in" THEN "none" ELSE @])
       [] e.op = "open" -> IF z.own[f] # "none" THEN {} ELSE Fine([z EXCEPT !.own[f] = "out"])
       [] e.op = "leave" -> Fine([z EXCEPT !.own[f] = "none"])
       [] OTHER -> IF e.by = "in" /\ f \in z.shut THEN Refused(z) ELSE Of(z, f, DoApply(z.g[f], e))

Explain(s, C, c) == [st |-> IF C = {} THEN s ELSE C, bad |-> Need(C # {}, c, C31)]

ShutStep(s, e) ==
  CASE e.k = "new" -> [st |-> ShutStart, bad |-> {}]
    [] e.k = "call" -> [st |-> Invoke(s, e), bad |-> {}]
    [] e.k = "ret" -> Explain(s, Return(s, e), "an operation around the closing of an archive has another result")
    [] e.k = "final" ->
         LET ok == /\ e.r = "ok"
                   /\ ~\E x \in 1..Len(e.segs) : e.segs[x].k = "BAD"
                   /\ Tiles(e.segs)
         IN IF ~ok THEN [st |-> s, bad |-> Need(FALSE, "a closed archive is damaged", C31)]
            ELSE Explain(s, {c \in s : EndsAs(c.g.g[e.f], e)}, "a closed archive does not hold what was acknowledged")
    [] e.k = "stuck" -> [st |-> s, bad |-> Need(FALSE, "closing, or the next opening, waits for ever", C31)]
    [] e.k = "runs" -> [st |-> s, bad |-> {}]
==============================================================================
