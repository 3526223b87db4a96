----------------------------- MODULE ProgramsTrace -----------------------------
(* Recorded schedules of device and program provider.  Each call line also
   carries, as `l`, the lock it is going to return (if it returns one).        *)
EXTENDS TraceBase, Linear, Programs

C12 == {"C12"}
Start == [C |-> Explained(Empty), plat |-> <<>>, failing |-> ""]

Fail(g) == {[g |-> g, out |-> [r |-> "err"]]}
Done1(g) == {[g |-> g, out |-> [r |-> "ok"]]}
DoApply(g, e) ==
  CASE e.op = "load" -> Done1(LoadDevs(g, e.plat))
    [] e.op = "filter" -> IF FilterOK(g) THEN Done1(FilterDevs(g, e.m)) ELSE Fail(g)
    [] e.op = "register" -> IF RegisterOK(g, e.name, e.failing) THEN Done1(Register(g, e.name)) ELSE Fail(g)
    [] e.op = "devices" -> IF g.devs = <<>> THEN Fail(g) ELSE {[g |-> g, out |-> [r |-> "ok", ds |-> g.devs]]}
    [] e.op = "get" ->
         IF ~GetOK(g, e.name) THEN Fail(g)
         ELSE {[g |-> WithLock(x.g, x.dev, e.l), out |-> [r |-> "ok", dev |-> x.dev]] : x \in {x \in Turns(g, e.name) : LockOK(x.g, x.dev, e.l)}}
DoMatch(call, out, e) ==
  /\ e.r = out.r
  /\ Has(out, "dev") => e.dev = out.dev
  /\ Has(out, "ds") => e.ds = out.ds

With(s, e) == [f \in DOMAIN e \cup {"plat", "failing"} |-> IF f = "plat" THEN s.plat ELSE IF f = "failing" THEN s.failing ELSE e[f]]
DoStep(s, e) ==
  CASE e.k = "new" -> [st |-> Start, bad |-> {}]
    [] e.k = "platform" -> [st |-> [s EXCEPT !.plat = e.all, !.failing = e.failing], bad |-> {}]
    [] e.k = "call" -> [st |-> [s EXCEPT !.C = Invoke(@, With(s, e))], bad |-> {}]
    [] e.k = "ret" -> LET C == Return(s.C, e)
                      IN [st |-> [s EXCEPT !.C = C],
                          bad |-> Need(C # {}, "no order of the requests explains this answer", C12)]
    [] e.k = "stuck" -> [st |-> s, bad |-> Need(FALSE, "requests block each other for ever", C12)]
    [] e.k = "runs" -> [st |-> s, bad |-> {}]
==============================================================================
