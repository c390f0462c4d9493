-------------------------------- MODULE Net --------------------------------
(* A networked consumer between the ports of the broker and remote clients.
   A client asks for work or hands in a result and is answered with the next work item or
   with the notice that there is none; messages that make no sense are turned away.
   Clients may vanish at any point; a request they have left behind may or may not still be
   served, and what is served to nobody is lost - but nothing else is, and nobody else notices. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES live,   \* ports whose owner is connected
          left,   \* ports whose owner has gone and which the broker has not yet removed
          raw,    \* port -> items waiting, oldest first
          done,   \* port -> results waiting: <<item, state>>, oldest first
          home,   \* item -> port
          kind,   \* item -> "ok" (can be processed), "bad" (processing fails), "deadly" (ends its client)
          req,    \* client -> its request or the answer to it
          ghosts, \* requests whose client has gone
          seen,   \* ports looked at in the current round (if exact)
          exact   \* requests come one after the other: the round-robin is observable
netVars == <<live, left, raw, done, home, kind, req, ghosts, seen, exact>>
Nobody == [st |-> "idle", k |-> 0, s |-> "", how |-> ""]
InitNet(clients, ex) == /\ live = {} /\ left = {} /\ raw = [p \in {} |-> << >>] /\ done = [p \in {} |-> << >>] /\ home = [k \in {} |-> 0] /\ kind = [k \in {} |-> ""]
                        /\ req = [c \in clients |-> Nobody] /\ ghosts = << >> /\ seen = {} /\ exact = ex
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Ports == live \cup left
Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

(* the owners of the ports *)
Enrol(p) == /\ p \notin Ports \cup DOMAIN raw /\ live' = live \cup {p} /\ left' = {} /\ raw' = Put(raw, p, << >>) /\ done' = Put(done, p, << >>) /\ seen' = {}
            /\ UNCHANGED <<home, kind, req, ghosts, exact>>
Leave(p) == /\ p \in live /\ live' = live \ {p} /\ left' = left \cup {p} /\ seen' = (IF live \ {p} \subseteq seen THEN {} ELSE seen) /\ UNCHANGED <<raw, done, home, kind, req, ghosts, exact>>
Submit(p, k, how) == /\ p \in live /\ k \notin DOMAIN home /\ raw' = [raw EXCEPT ![p] = Append(@, k)] /\ home' = Put(home, k, p) /\ kind' = Put(kind, k, how)
                     /\ UNCHANGED <<live, left, done, req, ghosts, seen, exact>>
Collect(p, k, s) == /\ p \in live /\ done[p] # << >> /\ Head(done[p]) = <<k, s>> /\ done' = [done EXCEPT ![p] = Tail(@)] /\ UNCHANGED <<live, left, raw, home, kind, req, ghosts, seen, exact>>
NoResult(p) == p \in live /\ done[p] = << >>

(* the clients *)
\* op is "get", "res" (with a result) or "bad"
Send(c, op, k, s) == req[c] = Nobody /\ req' = [req EXCEPT ![c] = [st |-> op, k |-> k, s |-> s, how |-> ""]] /\ UNCHANGED <<live, left, raw, done, home, kind, ghosts, seen, exact>>
Recv(c, how, k) == /\ req[c].st = "reply" /\ req[c].how = how /\ req[c].k = k /\ req' = [req EXCEPT ![c] = Nobody] /\ UNCHANGED <<live, left, raw, done, home, kind, ghosts, seen, exact>>
Drop(c) == /\ req' = [req EXCEPT ![c] = Nobody] /\ ghosts' = (IF req[c].st \in {"get", "res"} THEN Append(ghosts, req[c]) ELSE ghosts)
           /\ UNCHANGED <<live, left, raw, done, home, kind, seen, exact>>

(* the server; r is a request, r' is bound by the caller *)
\* a result goes to the port its item came from, or nowhere if that port is gone
HandIn(r) == /\ done' = (IF home[r.k] \in Ports THEN [done EXCEPT ![home[r.k]] = Append(@, <<r.k, r.s>>)] ELSE done)
             /\ UNCHANGED <<live, left, raw, home, kind, seen, exact>>
Look(p) == /\ p \in Ports /\ (exact => p \notin seen)
           /\ seen' = IF ~exact \/ live \subseteq seen \cup {p} THEN {} ELSE seen \cup {p}
Fetch(p) == Look(p) /\ raw[p] # << >> /\ raw' = [raw EXCEPT ![p] = Tail(@)] /\ UNCHANGED <<live, left, done, home, kind, exact>>
Idle(p) == IF Ports = {} THEN UNCHANGED <<live, left, raw, done, home, kind, seen, exact>>
           ELSE Look(p) /\ raw[p] = << >> /\ UNCHANGED <<live, left, raw, done, home, kind, exact>>
Answer(c, how, k) == req' = [req EXCEPT ![c] = [st |-> "reply", k |-> k, s |-> "", how |-> how]] /\ UNCHANGED ghosts
ServeResult(c) == req[c].st = "res" /\ HandIn(req[c]) /\ req' = [req EXCEPT ![c].st = "get"] /\ UNCHANGED ghosts
ServeItem(c, p) == req[c].st = "get" /\ Fetch(p) /\ Answer(c, "item", Head(raw[p]))
ServeNone(c, p) == req[c].st = "get" /\ Idle(p) /\ Answer(c, "nodata", 0)
Reject(c) == req[c].st = "bad" /\ (\E how \in {"empty", "closed"} : Answer(c, how, 0)) /\ UNCHANGED <<live, left, raw, done, home, kind, seen, exact>>
Serve(c) == ServeResult(c) \/ (\E p \in Ports : ServeItem(c, p) \/ ServeNone(c, p)) \/ (Ports = {} /\ ServeNone(c, 0)) \/ Reject(c)
GhostResult(i) == /\ ghosts[i].st = "res" /\ HandIn(ghosts[i]) /\ ghosts' = [ghosts EXCEPT ![i].st = "get"] /\ UNCHANGED req
GhostItem(i, p) == ghosts[i].st = "get" /\ Fetch(p) /\ ghosts' = Remove(ghosts, i) /\ UNCHANGED req
GhostNone(i) == ghosts' = Remove(ghosts, i) /\ UNCHANGED <<live, left, raw, done, home, kind, req, seen, exact>>
Ghost(i) == GhostResult(i) \/ (\E p \in Ports : GhostItem(i, p)) \/ GhostNone(i)

(* a whole round trip, for clients that aren't watched: the item comes back in the state it deserves, once *)
Fate(k) == IF kind[k] = "bad" THEN "fail" ELSE "ok"
Positions(p, k) == {i \in DOMAIN raw[p] : raw[p][i] = k}
RoundTrip(p, k, s) == /\ p \in live /\ Positions(p, k) # {} /\ kind[k] # "deadly" /\ s = Fate(k) /\ raw' = [raw EXCEPT ![p] = Remove(@, CHOOSE i \in Positions(p, k) : TRUE)]
                      /\ UNCHANGED <<live, left, done, home, kind, req, ghosts, seen, exact>>
=============================================================================
