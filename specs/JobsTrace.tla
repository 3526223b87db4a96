------------------------------- MODULE JobsTrace -------------------------------
(* Recorded schedules of the processor.  A thread executes a job from the first
   sign of it (entering a codec, handing over a block) to the report of the
   outcome.                                                                    *)
EXTENDS TraceBase, Jobs

C11 == {"C11"}
NoFun == [x \in {} |-> 0]
Start == [n |-> 0, jobs |-> NoFun, busy |-> {}, names |-> {}]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
NameSet(e) == {e.names[k].p : k \in 1..Len(e.names)}
(* the names the driver uses, as text *)
TextOf(p) == CASE p = <<47, 116, 48>> -> "/t0" [] p = <<47, 110, 101, 119>> -> "/new" [] OTHER -> "?"
Texts(s) == {TextOf(x.p) : x \in s.names}

(* Nobody wants to hear how it ends: then what it does tells less. *)
Deaf(j) == ToSet(j.deaf)
Unheard(s, j) == Reports(j.d, Texts(s)) \in Deaf(j.d)
Ran(j) == /\ j.blobs = BlocksOut(j.d)
          /\ ("id" \in Deaf(j.d) \/ j.ids = IdsOut(j.d))

Busy(s, t) == [s EXCEPT !.busy = @ \cup {t}]
AtMost(s) == Need(Cardinality(s.busy) <= s.n, "more jobs inside execution than allowed", C11)

Cb(s, e) ==
  LET j == s.jobs[e.j]
      upd(f) == Put(s.jobs, e.j, f)
      x == Busy(s, e.t)
  IN CASE e.w = "blob" -> [st |-> [x EXCEPT !.jobs = upd([j EXCEPT !.blobs = @ + 1])],
                           bad |-> AtMost(x) \cup Need(j.told = "", "a block after the outcome", C11)]
       [] e.w = "blobend" -> [st |-> x, bad |-> AtMost(x)]
       [] e.w = "id" -> [st |-> [x EXCEPT !.jobs = upd([j EXCEPT !.ids = @ + 1])],
                         bad |-> AtMost(x) \cup Need(j.told = "", "a block id after the outcome", C11)]
       [] e.w \in {"success", "error"} ->
            [st |-> [s EXCEPT !.busy = @ \ {e.t}, !.jobs = upd([j EXCEPT !.told = e.w])],
             bad |-> Need(j.told = "", "a second outcome", C11)
                     \cup Need(~j.done, "an outcome after the completion", C11)
                     \cup Need(e.w = Reports(j.d, Texts(s)), "the wrong outcome is reported", C11)
                     \cup Need(e.w = "error" \/ j.blobs = BlocksOut(j.d), "a successful job runs once: blocks", C11)
                     \cup Need(e.w = "error" \/ "id" \in Deaf(j.d) \/ j.ids = IdsOut(j.d), "a successful job runs once: ids", C11)
                     \cup Need(j.blobs <= 1 /\ j.ids <= 1, "a job runs more than once", C11)]
       [] e.w = "completed" ->
            [st |-> [s EXCEPT !.jobs = upd([j EXCEPT !.done = TRUE])],
             bad |-> Need(j.told # "" \/ Unheard(s, j), "completion without an outcome", C11)
                     \cup Need(~j.done, "a second completion", C11)]

(* Which names there are in the end. *)
Trained(s) == {j \in DOMAIN s.jobs : s.jobs[j].d.kind = "train" 
                               /\ \/ s.jobs[j].told = "success"
                                  \/ s.jobs[j].told = "" /\ Unheard(s, s.jobs[j]) /\ Succeeds(s.jobs[j].d, Texts(s))}
After(s, e) ==
  LET new == ToSet(e.names)
  IN Need(\A x \in s.names : \/ x \in new
                             \/ \E j \in Trained(s) : s.jobs[j].d.addr = TextOf(x.p),
          "a failed job changed a named coding state", C11)
     \cup Need(\A x \in new \ s.names : \E j \in Trained(s) : s.jobs[j].d.addr = TextOf(x.p),
          "a job that did not succeed stored a coding state", C11)
     \cup Need(\A j \in Trained(s) : \E x \in new : s.jobs[j].d.addr = TextOf(x.p),
          "a successful training stored nothing", C11)

DoStep(s, e) ==
  CASE e.k = "new" -> [st |-> [Start EXCEPT !.n = e.n], bad |-> {}]
    [] e.k = "names" -> [st |-> [s EXCEPT !.names = ToSet(e.names)], bad |-> {}]
    \* with a job whose end is not told, the threads inside cannot be counted
    [] e.k = "job" -> [st |-> [s EXCEPT !.n = IF e.deaf = <<>> THEN @ ELSE 1000, !.jobs = Put(@, e.j, [d |-> e, told |-> "", done |-> FALSE, blobs |-> 0, ids |-> 0])], bad |-> {}]
    [] e.k = "cycle" -> [st |-> s, bad |-> {}]
    [] e.k = "enter" -> LET x == Busy(s, e.t) IN [st |-> x, bad |-> AtMost(x)]
    [] e.k = "leave" -> [st |-> s, bad |-> {}]
    [] e.k = "cb" -> Cb(s, e)
    [] e.k = "idle" -> 
         [st |-> s,
          bad |-> Need(\A j \in DOMAIN s.jobs : s.jobs[j].done \/ "completed" \in Deaf(s.jobs[j].d), "a job never completes", C11)
                  \cup Need(\A j \in DOMAIN s.jobs : s.jobs[j].told # "" \/ Unheard(s, s.jobs[j]), "a job without an outcome", C11)
                  \cup Need(\A j \in DOMAIN s.jobs : Succeeds(s.jobs[j].d, Texts(s)) => Ran(s.jobs[j]), "a successful job does not run", C11)]
    [] e.k = "after" -> [st |-> s, bad |-> After(s, e)]
    [] e.k = "stuck" -> [st |-> s, bad |-> Need(FALSE, "jobs block each other for ever", C11)]
    [] e.k = "runs" -> [st |-> s, bad |-> {}]
==============================================================================
