---------------------------------- MODULE Jobs ---------------------------------
(* What a codec job has to report.  A job is
     [kind, addr, cb, alg, archive]   addr: name of a coding state or "",
   cb: the receiver of blocks (none / ok / it fails).                          *)
EXTENDS Integers, Sequences, FiniteSets

Codec(j) == j.alg \in {0, 1}          \* of those used: can code arbitrary bytes
Receiver(j) == j.cb # "none"
ReceiverFails(j) == j.cb \in {"throw", "throwint"}

(* Does it succeed?  `names` are the names of coding states in the archive.    *)
Succeeds(j, names) ==
  CASE j.kind = "encode" ->
         /\ j.addr # "" => j.archive /\ j.addr \in names
         /\ Codec(j)
         /\ (j.addr = "" => j.archive \/ Receiver(j))
         /\ ~ReceiverFails(j)
    [] j.kind = "decode" ->
         /\ j.archive \/ Receiver(j)
         /\ Codec(j)
         /\ ~ReceiverFails(j)
    [] j.kind = "train" ->
         /\ j.addr # "" /\ j.archive
         /\ j.alg = 1
         /\ j.addr # "/t0/x"        \* beneath an existing name

Reports(j, names) == IF Succeeds(j, names) THEN "success" ELSE "error"
(* blocks and block ids that a successful job hands over *)
BlocksOut(j) == IF j.kind \in {"encode", "decode"} /\ Receiver(j) THEN 1 ELSE 0
IdsOut(j) == IF j.kind = "encode" /\ j.archive THEN 1 ELSE 0
==============================================================================
