-------------------------------- MODULE Frames --------------------------------
(* The bytes of a transfer: what is put on the wire.                          *)
EXTENDS Integers, Sequences

Two(n) == <<n % 256, n \div 256>>
Wire(op, v) ==
  CASE op = "put"  -> <<0>> \o v
    [] op = "get"  -> <<0>>
    [] op = "raw"  -> <<>>
    [] op = "sync" -> <<0>>
    [] op = "bad"  -> <<255>> \o Two(Len(v) % 65536) \o v
    [] op = "good" -> <<0>> \o Two(Len(v) % 65536) \o <<0>> \o v
(* the length that an error or success message announces *)
CutLength(op, out) == IF Len(out) < 4 THEN 0 ELSE out[2] + 256 * out[3]
==============================================================================
