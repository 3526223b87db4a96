------------------------------ MODULE StackModel ------------------------------
(* The buffered implementation (buffers of size Buf) refines the stack, and
   the run-length form of the specification is the plain stack.              *)
EXTENDS Stack, TLC
CONSTANTS Buf, MaxOps
VARIABLES plain, runs, bufs, next, ops
(* bufs: sequence of buffers; each but the last is full *)
vars == <<plain, runs, bufs, next, ops>>
Init == plain = <<>> /\ runs = <<>> /\ bufs = <<>> /\ next = 1 /\ ops = 0
Push == /\ plain' = Append(plain, next) /\ runs' = PushRun(runs, next, 1)
        /\ bufs' = IF bufs = <<>> \/ Len(bufs[Len(bufs)]) = Buf THEN Append(bufs, <<next>>)
                   ELSE [bufs EXCEPT ![Len(bufs)] = Append(@, next)]
        /\ next' = next + 1
Pop == /\ plain' = IF plain = <<>> THEN <<>> ELSE SubSeq(plain, 1, Len(plain) - 1)
       /\ runs' = PopRun(runs, 1)
       /\ bufs' = IF bufs = <<>> THEN bufs
                  ELSE LET l == bufs[Len(bufs)]
                       IN IF Len(l) > 1 THEN [bufs EXCEPT ![Len(bufs)] = SubSeq(l, 1, Len(l) - 1)]
                          ELSE SubSeq(bufs, 1, Len(bufs) - 1)
       /\ UNCHANGED next
Next == ops < MaxOps /\ ops' = ops + 1 /\ (Push \/ Pop)
Spec == Init /\ [][Next]_vars
Flat == FlattenSeq(bufs)
Refines == Flat = plain
Sizes == Size(runs) = Len(plain) /\ (plain # <<>> => Top(runs) = plain[Len(plain)])
NoEmptyBuffer == \A k \in 1..Len(bufs) : Len(bufs[k]) >= 1 /\ (k < Len(bufs) => Len(bufs[k]) = Buf)
==============================================================================
