----------------------------- MODULE ReopenTrace -----------------------------
(* A closed and reopened archive against itself: whatever it held before, right
   or wrong, it opens again and holds the same.  Unlike ArchiveTrace this needs
   no agreement between the history so far and the specified one. *)
EXTENDS TraceBase

(* held: what the last look showed, <<>> if something was changed since *)
Start == [held |-> <<>>, opened |-> 0]

Keeping == {"snap", "open", "close", "read", "readentry", "readblob", "readname", "exists", "list"}
Same(x, y) == Len(x) = Len(y) /\ ToSet(x) = ToSet(y)

DoStep(s, e) ==
  CASE e.k = "new"   -> [st |-> Start, bad |-> {}]
    [] e.k = "open"  -> [st |-> [s EXCEPT !.opened = @ + 1],
                         bad |-> Need(e.r = "ok", IF s.opened = 0 THEN "open: fails for a new archive" ELSE "open: the archive cannot be opened again", {"C02"})]
    [] e.k = "close" -> [st |-> s, bad |-> Need(e.r = "ok", "close: fails", {"C02"})]
    [] e.k = "snap"  ->
         LET now == [files |-> e.files, names |-> e.names]
         IN [st |-> [s EXCEPT !.held = IF e.r = "ok" THEN <<now>> ELSE <<>>],
             bad |-> IF s.held = <<>> THEN {}
                     ELSE Need(e.r = "ok", "an entry that could be read before the reopening cannot be read", {"C02"})
                          \cup (IF e.r # "ok" THEN {} ELSE
                                Need(Same(s.held[1].files, now.files), "files differ after the reopening", {"C02"})
                                \cup Need(Same(s.held[1].names, now.names), "coding states differ after the reopening", {"C02"}))]
    [] e.k \in Keeping -> [st |-> s, bad |-> {}]
    [] OTHER -> [st |-> [s EXCEPT !.held = <<>>], bad |-> {}]
==============================================================================
