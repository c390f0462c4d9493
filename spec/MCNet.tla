------------------------------- MODULE MCNet -------------------------------
(* Exhaustive check of the networked consumer: whatever clients do, items are handed out at most
   once and only get lost with a client, results only reach the owner of their item, and every
   request of a client that stays is answered. *)
EXTENDS Net, TLC
CONSTANTS Clients, MaxPorts, MaxItems, MaxSends, MaxGhosts, Exact
VARIABLES held,   \* client -> items it has been given and not yet handed in
          given,  \* item -> how often it was handed to a client
          sent,   \* item -> how often its result was sent
          got,    \* item -> how often its result was collected
          lostc,  \* items that went away with a client
          n       \* messages sent
mc == <<held, given, sent, got, lostc, n>>
vars == <<netVars, mc>>
Bump(f, k) == Put(f, k, (IF k \in DOMAIN f THEN f[k] ELSE 0) + 1)
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Init == /\ InitNet(Clients, Exact) /\ held = [c \in Clients |-> {}] /\ given = [k \in {} |-> 0] /\ sent = [k \in {} |-> 0] /\ got = [k \in {} |-> 0] /\ lostc = {} /\ n = 0
Same == UNCHANGED mc
NextPort == Cardinality(DOMAIN raw) + 1
NextItem == Cardinality(DOMAIN home) + 1
\* messages a client sends; results may be sent again
EnvSend(c) == /\ n < MaxSends /\ n' = n + 1
              /\ \/ Send(c, "get", 0, "") /\ UNCHANGED <<held, given, sent, got, lostc>>
                 \/ Send(c, "bad", 0, "") /\ UNCHANGED <<held, given, sent, got, lostc>>
                 \/ \E k \in held[c] : Send(c, "res", k, Fate(k)) /\ sent' = Bump(sent, k) /\ UNCHANGED <<held, given, got, lostc>>
ItemOf(c) == IF req[c].st = "reply" THEN {req[c].k} \ {0} ELSE {}
EnvRecv(c) == /\ req[c].st = "reply" /\ Recv(c, req[c].how, req[c].k)
              /\ held' = [held EXCEPT ![c] = @ \cup ItemOf(c)] /\ UNCHANGED <<given, sent, got, lostc, n>>
EnvDrop(c) == /\ n < MaxSends /\ n' = n + 1 /\ (req[c] # Nobody \/ held[c] # {}) /\ Drop(c) /\ Len(ghosts') <= MaxGhosts /\ held' = [held EXCEPT ![c] = {}] /\ lostc' = lostc \cup held[c] \cup ItemOf(c) /\ UNCHANGED <<given, sent, got>>
Server(c) == Serve(c) /\ given' = (IF req[c].st = "get" /\ req'[c].k # 0 THEN Bump(given, req'[c].k) ELSE given) /\ UNCHANGED <<held, sent, got, lostc, n>>
Taken == {k \in DOMAIN home : \E p \in DOMAIN raw : (\E i \in DOMAIN raw[p] : raw[p][i] = k) /\ ~\E i \in DOMAIN raw'[p] : raw'[p][i] = k}
GhostStep == \E i \in DOMAIN ghosts : Ghost(i) /\ lostc' = lostc \cup Taken /\ UNCHANGED <<held, given, sent, got, n>>
Owner == \/ NextPort <= MaxPorts /\ Enrol(NextPort) /\ Same
         \/ \E p \in live : Leave(p) /\ Same
         \/ \E p \in live : NextItem <= MaxItems /\ (\E w \in {"ok", "bad"} : Submit(p, NextItem, w)) /\ Same
         \/ \E p \in live : done[p] # << >> /\ Collect(p, Head(done[p])[1], Head(done[p])[2]) /\ got' = Bump(got, Head(done[p])[1]) /\ UNCHANGED <<held, given, sent, lostc, n>>
Next == Owner \/ (\E c \in Clients : EnvSend(c) \/ EnvRecv(c) \/ EnvDrop(c) \/ Server(c)) \/ GhostStep
Spec == Init /\ [][Next]_vars
\* the server keeps serving whatever happens
Fair == \A c \in Clients : WF_vars(Server(c)) /\ WF_vars(EnvRecv(c))
LiveSpec == Spec /\ Fair
----
InQueue(k) == \E p \in DOMAIN raw : \E i \in DOMAIN raw[p] : raw[p][i] = k
Once == \A k \in DOMAIN home : At(given, k) <= 1 /\ Cardinality({<<p, i>> \in (DOMAIN raw) \X (1..MaxItems) : i \in DOMAIN raw[p] /\ raw[p][i] = k}) <= 1 /\ (InQueue(k) => At(given, k) = 0)
\* an item that isn't waiting has been given to somebody, or went away with somebody
Conserved == \A k \in DOMAIN home : InQueue(k) \/ At(given, k) = 1 \/ k \in lostc
\* results reach the owner of their item and nobody else, unchanged, and no more of them than were sent
Right == \A p \in DOMAIN done : \A i \in DOMAIN done[p] : home[done[p][i][1]] = p /\ done[p][i][2] = Fate(done[p][i][1])
Bounded == \A k \in DOMAIN home : At(got, k) + Cardinality({<<p, i>> \in (DOMAIN done) \X (1..MaxSends) : i \in DOMAIN done[p] /\ done[p][i][1] = k}) <= At(sent, k)
\* a client that is turned away, or left alone, has changed nothing
Harmless == [][\A c \in Clients : (req[c].st = "bad" /\ req'[c].st = "reply") => UNCHANGED <<raw, done, live, left, home>>]_vars
\* every request that isn't abandoned is answered
Answered == \A c \in Clients : (req[c].st \in {"get", "res", "bad"}) ~> (req[c].st \in {"reply", "idle"})
\* no request is answered with "nothing there" while work waits at every port
NoData == [][\A c \in Clients : (req[c].st = "get" /\ req'[c].how = "nodata") => (Ports = {} \/ \E p \in Ports : raw[p] = << >>)]_vars
=============================================================================
