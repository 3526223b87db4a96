-------------------------------- MODULE Programs -------------------------------
(* Devices and the programs built for them.
     plat    devices of the platform now,   failing  device that builds nothing
     devs    devices in use,                progs    name -> devices built for
     at      position of the next request (Unknown: unknown)
     locks   device -> lock, since the devices were last configured            *)
EXTENDS Integers, Sequences, FiniteSets

Unknown == -1
NoProgs == [x \in {} |-> <<>>]
Empty == [devs |-> <<>>, progs |-> NoProgs, at |-> Unknown, locks |-> NoProgs]
PutIn(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
In(q, x) == \E k \in 1..Len(q) : q[k] = x

LoadDevs(g, plat) == [g EXCEPT !.devs = plat, !.progs = NoProgs, !.at = Unknown, !.locks = NoProgs]
FilterOK(g) == g.devs # <<>>
FilterDevs(g, m) == [g EXCEPT !.devs = SelectSeq(@, LAMBDA d : In(m, d)), !.progs = NoProgs, !.at = Unknown, !.locks = NoProgs]
RegisterOK(g, name, failing) == name \in DOMAIN g.progs \/ (g.devs # <<>> /\ ~In(g.devs, failing))
Register(g, name) == IF name \in DOMAIN g.progs THEN g ELSE [g EXCEPT !.progs = PutIn(@, name, g.devs)]
GetOK(g, name) == name \in DOMAIN g.progs
(* the devices that can come next, and the state after each *)
Turns(g, name) ==
  LET n == Len(g.progs[name])
  IN {[dev |-> g.progs[name][k + 1], g |-> [g EXCEPT !.at = (k + 1) % n]] : k \in IF g.at = Unknown THEN 0..(n - 1) ELSE {g.at}}
(* may the request for `dev` be answered with lock l? *)
LockOK(g, dev, l) == IF dev \in DOMAIN g.locks THEN g.locks[dev] = l ELSE \A d \in DOMAIN g.locks : g.locks[d] # l
WithLock(g, dev, l) == [g EXCEPT !.locks = PutIn(@, dev, l)]
==============================================================================
