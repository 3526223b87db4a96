---------------------------- MODULE HandshakeModel -----------------------------
(* The handshake of several sessions, with clients that know the password and
   clients that only know what they have seen on the wire.  Tokens are Width
   digits, masked with a password that is folded over them.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Bitwise

CONSTANTS Width, Base, Sessions, MaxPwd

Tokens == [1..Width -> 0..(Base - 1)]
Passwords == UNION {[1..k -> 0..(Base - 1)] : k \in 0..MaxPwd}
Mix(a, b) == a ^^ b
Masked(p, t) == [k \in 1..Width |-> FoldLeft(LAMBDA a, j : IF (j - 1) % Width = k - 1 THEN Mix(a, p[j]) ELSE a, t[k], [j \in 1..Len(p) |-> j])]

ASSUME \A p \in Passwords, t \in Tokens : Masked(p, Masked(p, t)) = t
ASSUME \A p \in Passwords : Cardinality({Masked(p, t) : t \in Tokens}) = Cardinality(Tokens)

VARIABLES pwd, st, tok, reply, knows, wire, acted
vars == <<pwd, st, tok, reply, knows, wire, acted>>
None == [k \in 1..Width |-> -1]

Init == /\ pwd \in Passwords
        /\ st = [c \in Sessions |-> "new"] /\ tok = [c \in Sessions |-> None] /\ reply = [c \in Sessions |-> None]
        /\ knows \in [Sessions -> BOOLEAN] /\ wire = {} /\ acted = {}
(* a token that was not drawn before *)
Draw(c) == /\ st[c] = "new"
           /\ \E t \in Tokens : /\ t \notin {tok[d] : d \in Sessions} /\ tok' = [tok EXCEPT ![c] = t] /\ wire' = wire \cup {Masked(pwd, t)}
           /\ st' = [st EXCEPT ![c] = "asked"] /\ UNCHANGED <<pwd, reply, knows, acted>>
Answer(c) == /\ st[c] = "asked"
             /\ \E v \in (IF knows[c] THEN {Masked(pwd, Masked(pwd, tok[c]))} ELSE wire) :
                   reply' = [reply EXCEPT ![c] = v] /\ wire' = wire \cup {v}
             /\ st' = [st EXCEPT ![c] = "answered"] /\ UNCHANGED <<pwd, tok, knows, acted>>
Leave(c) == st[c] \in {"asked", "in"} /\ st' = [st EXCEPT ![c] = "out"] /\ UNCHANGED <<pwd, tok, reply, knows, wire, acted>>
Decide(c) == /\ st[c] = "answered" /\ st' = [st EXCEPT ![c] = IF reply[c] = tok[c] THEN "in" ELSE "out"]
             /\ UNCHANGED <<pwd, tok, reply, knows, wire, acted>>
Command(c) == st[c] = "in" /\ acted' = acted \cup {c} /\ UNCHANGED <<pwd, st, tok, reply, knows, wire>>
Next == \E c \in Sessions : Draw(c) \/ Answer(c) \/ Leave(c) \/ Decide(c) \/ Command(c)
Spec == Init /\ [][Next]_vars

Folded == Masked(pwd, [k \in 1..Width |-> 0])
OnlyAfter == \A c \in acted : reply[c] = tok[c]
(* the password is let in; what other sessions were told or returned is not,
   unless the password does not mask anything                                 *)
LetIn == \A c \in Sessions : (knows[c] /\ st[c] # "answered" /\ reply[c] # None) => reply[c] = tok[c]
NoReplay == \A c, d \in Sessions : c # d /\ reply[c] # None /\ reply[c] = reply[d] /\ reply[d] = tok[d] => c \notin acted
Mirror == \A c \in Sessions : (reply[c] = Masked(pwd, tok[c]) /\ \E k \in 1..Width : Folded[k] # 0) => c \notin acted
==============================================================================
