---------------------------- MODULE ArgumentsTrace ----------------------------
EXTENDS TraceBase, Arguments, Words
P == {"C29"}
Start == 0
Path(e) == Need(e.r = (IF ValidPath(e.s) THEN "ok" ELSE "err"), "path: accepted or rejected wrongly", P)
SizeArg(e) == Need(e.r = "ok" /\ Same(e.v, Shl(OfInt(e.n), UnitShift(e.u))), "size argument: value", P)
(* st: 0 nothing, 1 directory, 2 empty file, 3 file of sz bytes;
   act: 0 look, 1 create empty, 2 delete; miss: the parent does not exist.   *)
Fs(e) ==
  LET isFile == CASE e.miss -> FALSE
                  [] ~e.miss /\ e.act = 1 -> e.st # 1
                  [] ~e.miss /\ e.act = 2 -> FALSE
                  [] OTHER -> e.st \in {2, 3}
      size == IF isFile /\ e.act = 0 THEN e.sz ELSE <<0>>
  IN Need(e.r = "ok", "file helper: fails", P)
     \cup Need(e.r = "ok" => e.ex = isFile, "file helper: existence", P)
     \cup Need((e.r = "ok" /\ e.sized) => Same(e.size, size), "file helper: size", P)
DoStep(s, e) == [st |-> s, bad |->
  CASE e.k = "path" -> Path(e) [] e.k = "size" -> SizeArg(e) [] e.k = "fs" -> Fs(e)]
==============================================================================
