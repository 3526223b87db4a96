------------------------------- MODULE Semaphore -------------------------------
(* A counting semaphore as its users see it.  `free` permits; operations start
   (call), take effect, and return.                                            *)
EXTENDS Integers, Sequences, FiniteSets

(* What may be true of the numbers of started and finished operations. *)
NeverOverAdmits(init, acquired, releasesStarted) == acquired <= init + releasesStarted
(* When nothing can move any more, waiting threads wait for a good reason. *)
NobodyForgotten(init, acquired, released, waiting, releasing) ==
  /\ releasing = {}
  /\ waiting # {} => acquired = init + released
==============================================================================
