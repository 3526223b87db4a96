------------------------------- MODULE OpenTrace -------------------------------
(* Who has which archive open: recorded schedules of opening, closing and of
   the provider that shares instances.  A file is held from the return of an
   opening to the beginning of the closing.                                    *)
EXTENDS TraceBase

C09 == {"C09"}
NoFun == [x \in {} |-> 0]
(* holder: file -> thread;  inside: file -> names stored;  pend: thread -> call;
   given: file -> instance of the provider                                     *)
Start == [holder |-> NoFun, inside |-> NoFun, pend |-> NoFun, given |-> NoFun]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Usable(f) == f \notin {"bad.hz", "folder.hz"}
Inside(s, f) == IF f \in DOMAIN s.inside THEN s.inside[f] ELSE {}
FilesOf(s, t) == {f \in DOMAIN s.holder : s.holder[f] = t}

Called(s, e) ==
  LET n == [s EXCEPT !.pend = Put(@, e.t, e)]
  IN [st |-> IF e.op = "close" THEN [n EXCEPT !.holder = [f \in DOMAIN @ \ FilesOf(s, e.t) |-> @[f]]]
             ELSE IF e.op = "closeall" THEN [n EXCEPT !.given = NoFun]
             ELSE n,
      bad |-> {}]

Returned(s, e) ==
  LET c == s.pend[e.t]
      n == [s EXCEPT !.pend = Drop(@, e.t)]
  IN CASE c.op = "open" ->
            IF e.r # "ok" THEN [st |-> n, bad |-> Need(~Usable(c.f), "opening fails", C09)]
            ELSE [st |-> [n EXCEPT !.holder = Put(@, c.f, e.t)],
                  bad |-> Need(Usable(c.f), "a file that is no archive is opened", C09)
                          \cup Need(c.f \notin DOMAIN s.holder, "opened while it is open", C09)
                          \cup Need(c.f \notin DOMAIN s.given, "opened while the provider has it open", C09)
                          \cup Need(ToSet(e.seen) = Inside(s, c.f), "does not see what earlier owners stored", C09)]
       [] c.op = "put" ->
            LET f == CHOOSE f \in FilesOf(s, e.t) : TRUE
            IN [st |-> [n EXCEPT !.inside = Put(@, f, Inside(s, f) \cup {c.name})],
                bad |-> Need(e.r = "ok", "the owner cannot store", C09)]
       [] c.op = "close" -> [st |-> n, bad |-> Need(e.r = "ok", "closing fails", C09)]
       [] c.op = "closeall" -> [st |-> n, bad |-> Need(e.r = "ok", "closing fails", C09)]
       [] c.op = "provide" ->
            IF e.r # "ok" THEN [st |-> n, bad |-> Need(~Usable(c.f), "an archive is not provided", C09)]
            ELSE [st |-> [n EXCEPT !.given = Put(@, c.f, e.i)],
                  bad |-> Need(Usable(c.f), "a file that is no archive is provided", C09)
                          \cup Need(c.f \in DOMAIN s.given => s.given[c.f] = e.i, "two instances of one archive", C09)
                          \cup Need(\A f \in DOMAIN s.given \ {c.f} : s.given[f] # e.i, "one instance for two archives", C09)]

DoStep(s, e) ==
  CASE e.k = "new" -> [st |-> Start, bad |-> {}]
    [] e.k = "call" -> Called(s, e)
    [] e.k = "ret" -> Returned(s, e)
    [] e.k = "quiet" -> [st |-> s, bad |-> Need(DOMAIN s.pend = {}, "an opening never returns", C09)]
    [] e.k = "stuck" -> [st |-> s, bad |-> Need(FALSE, "an opening waits for ever", C09)]
    [] e.k = "runs" -> [st |-> s, bad |-> {}]
==============================================================================
