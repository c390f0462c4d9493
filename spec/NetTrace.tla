------------------------------ MODULE NetTrace ------------------------------
(* Conformance of the networked consumers, seen from the owners of the ports and from the clients. *)
EXTENDS TraceKit
VARIABLES live, left, raw, done, home, kind, req, ghosts, seen, exact
N == INSTANCE Net
nv == <<live, left, raw, done, home, kind, req, ghosts, seen, exact>>
vars == <<kitVars, live, left, raw, done, home, kind, req, ghosts, seen, exact>>
Own == Cfg.kind = 1
Clients == 0..(Cfg.nc - 1)
Init == KitInit /\ N!InitNet(Clients, Cfg.exact)
KindOf == IF Cur.deadly THEN "deadly" ELSE IF Cur.bad THEN "bad" ELSE "ok"
TEnrol == IsEvent("enrol") /\ N!Enrol(Cur.p)
TLeave == IsEvent("leave") /\ N!Leave(Cur.p)
TSubmit == IsEvent("submit") /\ N!Submit(Cur.p, Cur.k, KindOf)
\* what comes back carries what was sent out
TCollect == Cur.e = "collect" /\ IsEvent("collect")
            /\ (IF Cur.k = 0 THEN (IF Own THEN UNCHANGED nv ELSE N!NoResult(Cur.p) /\ UNCHANGED nv)
                ELSE Cur.same /\ (IF Own THEN N!RoundTrip(Cur.p, Cur.k, Cur.st) ELSE N!Collect(Cur.p, Cur.k, Cur.st)))
\* a client that processes an item finds it in the state it deserves
TSend == Cur.e = "send" /\ IsEvent("send") /\ (Cur.op = "res" => Cur.st = N!Fate(Cur.k)) /\ N!Send(Cur.c, Cur.op, Cur.k, Cur.st)
TRecv == Cur.e = "recv" /\ IsEvent("recv") /\ Cur.same /\ N!Recv(Cur.c, Cur.how, Cur.k)
TDrop == IsEvent("drop") /\ N!Drop(Cur.c)
\* at the end: nothing waits any more
TEnd == IsEvent("end") /\ (\A p \in live : raw[p] = << >> /\ done[p] = << >>) /\ (\A c \in Clients : req[c] = N!Nobody) /\ UNCHANGED nv
\* an item is missing only together with a client that has ended, and clients end only when asked to
Deadly == Cardinality({k \in DOMAIN kind : kind[k] = "deadly"})
Waiting == {k \in DOMAIN home : N!Positions(home[k], k) # {}}
TOver == Cur.e = "over" /\ IsEvent("over") /\ Cur.failed = 0 /\ Cur.missing = Cardinality(Waiting) /\ Cur.ended <= Deadly + Cfg.limits
         /\ (Cur.ended = Cfg.nc \/ Cur.missing <= Cur.ended) /\ UNCHANGED nv
TServe == More /\ Silent /\ ((\E c \in Clients : N!Serve(c)) \/ (\E i \in DOMAIN ghosts : N!Ghost(i)))
Next == More /\ (TEnrol \/ TLeave \/ TSubmit \/ TCollect \/ TSend \/ TRecv \/ TDrop \/ TEnd \/ TOver \/ TServe)
Spec == Init /\ [][Next]_vars
=============================================================================
