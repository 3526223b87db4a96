----------------------------- MODULE SessionModel ------------------------------
(* Module Session with every behaviour of a few clients: they connect (with or
   without trouble), say anything out of a small vocabulary, stop or vanish.  *)
EXTENDS Session

CONSTANTS Clients, Words, Lim, Troubles

VARIABLES conf, said
vars == <<conf, said>>

Cfg == [lim |-> Lim, timed |-> TRUE, pwd |-> <<>>, paths |-> <<[p |-> <<120>>, id |-> 1], [p |-> <<>>, id |-> 0]>>]
X == <<1, 0, 120>>                       \* the archive
F == <<2, 0, 47, 97>>                    \* the path /a
Token == <<0, 0, 0, 0, 0, 0, 0, 0>>      \* what a session draws when output is not compared
Eight(n) == U64(n)
Vocabulary == <<
  Token,
  <<9, 9, 9, 9, 9, 9, 9, 9>>,
  <<0, 0, 2>> \o X \o <<3>> \o F \o <<4>> \o Eight(ALG) \o <<0>> \o Eight(9) \o <<5, 5, 5, 5, 5, 5, 5, 5, 6>>,   \* encode
  <<0, 0, 2>> \o X \o <<3>> \o F \o <<4>> \o Eight(ALG) \o <<0>> \o Eight(1) \o <<Refused>>,                     \* fails
  <<0, 1, 5, 2>> \o X \o <<3>> \o F \o <<0>>,                                                                  \* decode
  <<1, 0>> \o X \o <<7>> \o F \o <<4>>,                                                                        \* delete
  <<0, 0, 2>> \o X \o <<1>> \o F \o <<4>> \o Eight(ALG) \o <<6>> \o Eight(1) \o <<7>>,                           \* train
  <<1, 3, 0>> \o X \o <<7>> \o F,                                                                              \* half a query
  <<2>>,                                                                                                       \* health
  <<255>> >>

Init == conf = Server(Cfg) /\ said = [c \in Clients |-> 0]
Come(c) == /\ c \notin DOMAIN conf.s /\ said[c] = 0
           /\ \E f \in Troubles : conf' = Connect(conf, c, f, FALSE)
           /\ said' = [said EXCEPT ![c] = 1]
Alive(c) == c \in DOMAIN conf.s /\ ~Gone(conf.s[c]) /\ ~conf.s[c].dead /\ ~conf.s[c].eof
Speak(c) == /\ Alive(c) /\ said[c] <= Words
            /\ \E w \in 1..Len(Vocabulary) :
                 /\ (said[c] = 1) = (w \in {1, 2})
                 /\ conf' = [conf EXCEPT !.s[c].in = @ \o Vocabulary[w]]
            /\ said' = [said EXCEPT ![c] = @ + 1]
Stop(c) == Alive(c) /\ \E h \in {"dead", "eof"} : conf' = [conf EXCEPT !.s[c][h] = TRUE] /\ UNCHANGED said
Quit == \E c \in Clients : Stop(c)
Act1 == conf' \in Successors(conf) /\ UNCHANGED said
Next == Act1 \/ \E c \in Clients : Come(c) \/ Speak(c) \/ Stop(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Act1) /\ \A c \in Clients : WF_vars(Stop(c))

(* what the configuration looks like to the property, without the output *)
View == <<[conf EXCEPT !.s = [c \in DOMAIN @ |-> [@[c] EXCEPT !.out = <<>>]]], said>>

S == conf.s
G == conf.g[1]
Limit == Cardinality(conf.up) <= Lim
Located == \A c \in DOMAIN S : /\ ~(c \in conf.up /\ c \in ToSet(conf.q))
                              /\ (~Gone(S[c]) => c \in conf.up \cup ToSet(conf.q))
                              /\ (c \in ToSet(conf.q) => S[c].pc = "new")
                              /\ S[c].pc # "bad"
BeforeHandshake == \A c \in DOMAIN S : S[c].mode = "hs" => S[c].n = 0 /\ S[c].pc \in {"new", "hs", "end"}
(* files consist of blobs that exist, in the order of the stream; blobs of coding states that exist *)
Stored == /\ \A t \in DOMAIN G.files : \A k \in 1..Len(G.files[t].b) : G.files[t].b[k] \in DOMAIN G.blobs
          /\ \A t \in DOMAIN G.names : G.names[t].id \in DOMAIN G.mst
          /\ \A b \in DOMAIN G.blobs : G.blobs[b].ms \in DOMAIN G.mst
          /\ \A t \in DOMAIN G.files : FlattenSeq([k \in 1..Len(G.files[t].b) |-> G.blobs[G.files[t].b[k]].o]) = <<5, 5, 5, 5, 5, 5, 5, 5, 6>>
          /\ DOMAIN G.files \cap G.delF = {} /\ DOMAIN G.names \cap G.delN = {}
(* nothing is remembered from one command to the next *)
Forgotten == \A c \in DOMAIN S : S[c].pc = "cmd" => S[c].r = NoReg
(* an answer begins with what it has to *)
(* everybody is served or sent away in the end *)
Served == <>[](conf.q = <<>> /\ conf.up = {})
==============================================================================
