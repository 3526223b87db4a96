------------------------------ MODULE CachesTrace ------------------------------
(* Recorded schedules of the cache provider: concurrent requests take effect
   one after the other, each getting the next of the configured resources, with
   the lock of that resource.                                                  *)
EXTENDS TraceBase, Linear

C12 == {"C12"}
NoFun == [x \in {} |-> 0]
Unknown == -1
Start == [C |-> {}, locks |-> NoFun]

DoApply(g, e) ==
  IF g.at = Unknown THEN {[g |-> [g EXCEPT !.at = (k + 1) % g.n], out |-> k] : k \in 0..(g.n - 1)}
  ELSE {[g |-> [g EXCEPT !.at = (@ + 1) % g.n], out |-> g.at]}
DoMatch(call, out, e) == e.i = out

Got(s, e) ==
  LET C == Return(s.C, e)
      known == e.i \in DOMAIN s.locks
      locks == IF known THEN s.locks ELSE [x \in DOMAIN s.locks \cup {e.i} |-> IF x = e.i THEN e.l ELSE s.locks[x]]
  IN IF e.r # "ok" \/ e.i < 0 THEN [st |-> s, bad |-> Need(FALSE, "something that is not a configured cache is returned", C12)]
     ELSE [st |-> [C |-> C, locks |-> locks],
           bad |-> Need(C # {}, "caches are not handed out in turn", C12)
                   \cup Need(known => s.locks[e.i] = e.l, "another lock for the same cache", C12)
                   \cup Need(~known => \A x \in DOMAIN s.locks : s.locks[x] # e.l, "one lock for two caches", C12)]

DoStep(s, e) ==
  CASE e.k = "new" -> [st |-> Start, bad |-> {}]
    [] e.k = "config" -> [st |-> [C |-> Explained([n |-> e.n, at |-> Unknown]), locks |-> NoFun], bad |-> {}]
    [] e.k = "call" -> [st |-> [s EXCEPT !.C = Invoke(@, e)], bad |-> {}]
    [] e.k = "ret" -> Got(s, e)
    [] e.k = "stuck" -> [st |-> s, bad |-> Need(FALSE, "requests block each other for ever", C12)]
    [] e.k = "runs" -> [st |-> s, bad |-> {}]
==============================================================================
