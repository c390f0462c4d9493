------------------------------ MODULE Service -------------------------------
(* In-process consumers (serial, multi-threaded) serving the broker: items of
   several submitters are taken by a fixed number of workers, processed once,
   and returned to the submitter they came from, until shut-down. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES nw,        \* number of worker threads
          waiting,   \* items handed in and not yet started
          home,      \* item -> port
          plan,      \* item -> planned outcome: 0 result, otherwise a failure
          busy,      \* worker -> item being processed
          done,      \* items processed, not yet collected
          got,       \* items collected by their submitter
          live,      \* ports with a submitter
          phase      \* "run", "stopping", "stopped"
svVars == <<nw, waiting, home, plan, busy, done, got, live, phase>>
InitSv(n) == /\ nw = n /\ waiting = {} /\ home = [k \in {} |-> 0] /\ plan = [k \in {} |-> 0] /\ busy = [w \in {} |-> 0]
             /\ done = {} /\ got = {} /\ live = {} /\ phase = "run"
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Enrol(p) == p \notin live /\ (\A k \in DOMAIN home : home[k] # p) /\ live' = live \cup {p} /\ UNCHANGED <<nw, waiting, home, plan, busy, done, got, phase>>
Submit(p, k, pl) == /\ p \in live /\ k \notin DOMAIN home
                    /\ waiting' = waiting \cup {k} /\ home' = Put(home, k, p) /\ plan' = Put(plan, k, pl)
                    /\ UNCHANGED <<nw, busy, done, got, live, phase>>
Start(w, k) == /\ k \in waiting /\ w \notin DOMAIN busy /\ Cardinality(DOMAIN busy) < nw /\ phase # "stopped"
               /\ waiting' = waiting \ {k} /\ busy' = Put(busy, w, k)
               /\ UNCHANGED <<nw, home, plan, done, got, live, phase>>
Finish(w, k) == /\ w \in DOMAIN busy /\ busy[w] = k /\ busy' = Del(busy, w) /\ done' = done \cup {k}
                /\ UNCHANGED <<nw, waiting, home, plan, got, live, phase>>
Collect(p, k) == /\ k \in done /\ home[k] = p /\ p \in live /\ done' = done \ {k} /\ got' = got \cup {k}
                 /\ UNCHANGED <<nw, waiting, home, plan, busy, live, phase>>
Leave(p) == p \in live /\ live' = live \ {p} /\ UNCHANGED <<nw, waiting, home, plan, busy, done, got, phase>>
StopCall == phase = "run" /\ phase' = "stopping" /\ UNCHANGED <<nw, waiting, home, plan, busy, done, got, live>>
StopReturn == phase = "stopping" /\ busy = <<>> /\ phase' = "stopped" /\ UNCHANGED <<nw, waiting, home, plan, busy, done, got, live>>
\* nothing more to be had for port p after the shut-down
Drained(p) == phase = "stopped" /\ \A k \in done : home[k] # p
=============================================================================
