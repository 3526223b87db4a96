------------------------------ MODULE FramesModel ------------------------------
(* The transfers of the socket layer, call by call, over a network that splits,
   stalls and fails.  A program of up to Ops transfers of at most Longest bytes.

   wire  what has left the server          in    arrived, not received yet
   given what the peer has sent            got   what transfers have yielded
   Sending may transfer less than asked or fail; that ends every transfer with
   a connection error, so that nothing follows a piece that is cut short.     *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Frames

CONSTANTS Ops, Longest, Supply

VARIABLES pc, op, n, wire, in, given, got, over, want, ops, peer
vars == <<pc, op, n, wire, in, given, got, over, want, ops, peer>>

Payload(k) == [j \in 1..k |-> 10 + j]
(* the pieces a transfer hands to send, one call each *)
Pieces(o, k) ==
  CASE o = "put"  -> <<<<0>>, Payload(k)>>
    [] o = "get"  -> <<<<0>>>>
    [] o = "sync" -> <<<<0>>>>
    [] o = "raw"  -> <<>>
    [] o = "bad"  -> <<<<255>>, Two(k), Payload(k)>>
    [] o = "good" -> <<<<0>>, Two(k), <<0>>, Payload(k)>>

Init == /\ pc = "idle" /\ op = <<>> /\ n = 0 /\ wire = <<>> /\ in = <<>> /\ given = <<>> /\ got = <<>>
        /\ over = FALSE /\ want = <<>> /\ ops = 0 /\ peer = "here"

Start == /\ pc = "idle" /\ ops < Ops /\ ~over
         /\ \E o \in {"put", "get", "sync", "raw", "bad", "good"}, k \in 0..Longest :
              /\ (o = "sync" => k = 0)
              /\ op' = Pieces(o, k) /\ n' = IF o \in {"get", "raw"} THEN k ELSE 0
              /\ want' = want \o Wire(o, IF o \in {"put", "bad", "good"} THEN Payload(k) ELSE <<>>)
         /\ ops' = ops + 1 /\ pc' = "sending"
         /\ UNCHANGED <<wire, in, given, got, over, peer>>
SendAll == /\ pc = "sending" /\ op # <<>> /\ (peer # "dead" \/ Head(op) = <<>>)
           /\ wire' = wire \o Head(op) /\ op' = Tail(op) /\ UNCHANGED <<pc, n, in, given, got, over, want, ops, peer>>
SendLess == /\ pc = "sending" /\ op # <<>> /\ Head(op) # <<>>
            /\ \E k \in 0..(Len(Head(op)) - 1) : wire' = wire \o SubSeq(Head(op), 1, IF peer = "dead" THEN 0 ELSE k)
            /\ pc' = "failed" /\ over' = TRUE /\ UNCHANGED <<op, n, in, given, got, want, ops, peer>>
Receive == /\ pc = "sending" /\ op = <<>> /\ n > 0 /\ peer # "dead" /\ Len(in) >= n
           /\ got' = got \o SubSeq(in, 1, n) /\ in' = SubSeq(in, n + 1, Len(in)) /\ pc' = "idle"
           /\ UNCHANGED <<op, n, wire, given, over, want, ops, peer>>
ReceiveLess == /\ pc = "sending" /\ op = <<>> /\ n > 0 /\ (peer = "dead" \/ (peer \in {"eof", "late"} /\ Len(in) < n))
               /\ in' = <<>> /\ pc' = "failed" /\ over' = TRUE /\ UNCHANGED <<op, n, wire, given, got, want, ops, peer>>
NoReceive == /\ pc = "sending" /\ op = <<>> /\ n = 0 /\ pc' = "idle" /\ UNCHANGED <<op, n, wire, in, given, got, over, want, ops, peer>>
Deliver == /\ peer = "here" /\ Len(given) < Supply
           /\ given' = Append(given, Len(given) + 1) /\ in' = Append(in, Len(given) + 1)
           /\ UNCHANGED <<pc, op, n, wire, got, over, want, ops, peer>>
Leave == /\ peer = "here" /\ \E x \in {"eof", "dead", "late"} : peer' = x
         /\ UNCHANGED <<pc, op, n, wire, in, given, got, over, want, ops>>
Next == Start \/ SendAll \/ SendLess \/ Receive \/ ReceiveLess \/ NoReceive \/ Deliver \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(SendAll \/ (peer = "dead" /\ SendLess) \/ Receive \/ ReceiveLess \/ NoReceive)

Whole == (pc = "idle" => wire = want) /\ IsPrefix(wire, want)
InOrder == IsPrefix(got, given) /\ (~over => given = got \o in)
OnlyOnce == over <=> pc = "failed"
(* with a peer that is gone nothing waits for ever *)
Returns == (pc = "sending" /\ peer # "here") ~> (pc # "sending")
==============================================================================
