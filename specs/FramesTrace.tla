------------------------------ MODULE FramesTrace ------------------------------
(* Recorded transfers of the socket layer against module Frames.             *)
EXTENDS TraceBase, Frames

Start == [in |-> <<>>, end |-> "", timed |-> FALSE]
P == {"C13"}

Op(z, e) ==
  LET avail == z.in \o FlattenSeq(e.parts)
      end == IF e.end = "" THEN z.end ELSE e.end
      n == IF e.op \in {"get", "raw"} THEN e.n ELSE 0
      W == Wire(e.op, e.v)
      cut == /\ e.op \in {"bad", "good"} /\ Len(e.v) > 65535      \* does not fit: any cut that is consistent
             /\ \E k \in 0..65535 : k = CutLength(e.op, e.out) /\ e.out = Wire(e.op, SubSeq(e.v, 1, k))
      all == e.out = W \/ cut
      starved == Len(avail) < n /\ end # ""
      big == e.op \in {"bad", "good"} /\ Len(e.v) > 65535
      refused == e.budget >= 0 /\ (IF big THEN e.r # "ok" ELSE e.budget < Len(W))
      gone == end = "dead"
  IN [st |-> [z EXCEPT !.in = IF e.r = "ok" THEN SubSeq(avail, n + 1, Len(avail)) ELSE avail, !.end = end],
      bad |-> Need(e.r \in {"ok", "conn"}, "a transfer ends in neither success nor a connection error", P)
              \cup Need(e.r = "ok" => all, "a transfer succeeds although not everything was sent, or something else", P)
              \cup Need(e.r # "ok" => IsPrefix(e.out, W) \/ Len(e.v) > 65535, "something else is sent", P)
              \cup Need(e.r = "ok" => Len(avail) >= n, "a transfer succeeds although not everything was received", P)
              \cup Need((e.r = "ok" /\ Len(avail) >= n) => e.got = SubSeq(avail, 1, n), "other bytes are received", P)
              \cup Need((e.r = "ok" /\ Len(avail) >= n) => e.left = Len(avail) - n, "more is received than asked for", P)
              \cup Need(e.r = "conn" => starved \/ refused \/ gone, "a connection error without a reason", P)
              \cup Need(~e.over, "the buffer is overrun", P)]

DoStep(z, e) ==
  CASE e.k = "new"   -> [st |-> [Start EXCEPT !.timed = e.timed], bad |-> {}]
    [] e.k = "op"    -> Op(z, e)
    [] e.k = "stuck" -> [st |-> z, bad |-> Need(FALSE, "a transfer waits for ever", P)]
    [] e.k = "runs"  -> [st |-> z, bad |-> {}]
==============================================================================
