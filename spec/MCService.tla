----------------------------- MODULE MCService ------------------------------
EXTENDS Service
CONSTANTS Ports, Items, Workers
Init == InitSv(Cardinality(Workers))
Next == \/ \E p \in Ports : Enrol(p) \/ Leave(p)
        \/ \E p \in Ports, k \in Items : (phase # "stopped" /\ Submit(p, k, k % 2)) \/ Collect(p, k)
        \/ \E w \in Workers, k \in Items : Start(w, k) \/ Finish(w, k)
        \/ StopCall \/ StopReturn
Fair == (\A w \in Workers, k \in Items : WF_svVars(Start(w, k) /\ phase = "run") /\ WF_svVars(Finish(w, k))) /\ WF_svVars(StopReturn)
        /\ \A p \in Ports, k \in Items : WF_svVars(Collect(p, k))
Spec == Init /\ [][Next]_svVars /\ Fair
Where(k) == (IF k \in waiting THEN 1 ELSE 0) + (IF k \in done THEN 1 ELSE 0) + (IF k \in got THEN 1 ELSE 0) + Cardinality({w \in DOMAIN busy : busy[w] = k})
NeverLostOrDoubled == \A k \in DOMAIN home : Where(k) = 1
NoWorkAfterStop == phase = "stopped" => busy = <<>>
Served == \A k \in Items : (k \in waiting) ~> (k \notin waiting \/ phase # "run")
Back == \A k \in Items : (k \in done) ~> (k \in got \/ (k \in DOMAIN home /\ home[k] \notin live))
=============================================================================
