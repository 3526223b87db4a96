---------------------------- MODULE SemaphoreTrace ----------------------------
(* Recorded schedules of the real semaphore. *)
EXTENDS TraceBase, Semaphore

C10 == {"C10"}
Start == [init |-> 0, acquired |-> 0, started |-> 0, released |-> 0, waiting |-> {}, releasing |-> {}]
Is(s) == [st |-> s, bad |-> {}]

DoStep(s, e) ==
  CASE e.k = "new" -> Is([s EXCEPT !.init = e.count])
    [] e.k = "call" /\ e.op = "acquire" -> Is([s EXCEPT !.waiting = @ \cup {e.t}])
    [] e.k = "call" -> Is([s EXCEPT !.releasing = @ \cup {e.t}, !.started = @ + 1])
    [] e.k = "ret" /\ e.t \in s.waiting ->
         LET n == [s EXCEPT !.waiting = @ \ {e.t}, !.acquired = @ + 1]
         IN [st |-> n, bad |-> Need(NeverOverAdmits(n.init, n.acquired, n.started), "more acquires returned than there were permits", C10)]
    [] e.k = "ret" -> Is([s EXCEPT !.releasing = @ \ {e.t}, !.released = @ + 1])
    [] e.k = "quiet" ->
         [st |-> s, bad |-> Need(NobodyForgotten(s.init, s.acquired, s.released, s.waiting, s.releasing),
                                 "a permit is free but a thread waits for ever", C10)]
    [] e.k = "stuck" -> [st |-> s, bad |-> Need(FALSE, "threads block each other for ever", C10)]
    [] e.k = "runs" -> Is(s)
==============================================================================
