------------------------------ MODULE Executor ------------------------------
(* Processing of batches by an executor whose workers are reliable (serial,
   multi-threaded, broker with in-process consumers).  A batch is a sequence of
   items [id, st, res, plan]; plan 0 stands for success, 1 for an error flagged
   by the user, anything else for an exception. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES batch,      \* items of the current or last call
          due,        \* ids handed in and not yet being processed
          running,    \* ids being processed
          finished,   \* ids processed in this call
          busy,       \* a call is under way
          limit       \* how many items may be processed at once
xVars == <<batch, due, running, finished, busy, limit>>
InitX(n) == batch = <<>> /\ due = {} /\ running = {} /\ finished = {} /\ busy = FALSE /\ limit = n
Ids(b, S) == {b[k].id : k \in {j \in DOMAIN b : b[j].st \in S}}
Refused == \E k \in DOMAIN batch : batch[k].st \notin {"DO_PROCESS", "DO_IGNORE", "PROCESSED"}
Call(b) == /\ ~busy /\ busy' = TRUE /\ batch' = b /\ due' = Ids(b, {"DO_PROCESS"}) /\ running' = {} /\ finished' = {} /\ UNCHANGED limit
Exec(i) == /\ busy /\ i \in due /\ Cardinality(running) < limit
           /\ due' = due \ {i} /\ running' = running \cup {i} /\ UNCHANGED <<batch, finished, busy, limit>>
Fin(i) == /\ i \in running /\ running' = running \ {i} /\ finished' = finished \cup {i} /\ UNCHANGED <<batch, due, busy, limit>>
After(x) == IF x.st # "DO_PROCESS" THEN x
            ELSE IF x.plan = 0 THEN [x EXCEPT !.st = "PROCESSED", !.res = x.id * 7]
            ELSE [x EXCEPT !.st = IF x.plan = 1 THEN "ERROR_FLAGGED" ELSE "EXCEPTION_CAUGHT", !.res = -7]
Result == [k \in DOMAIN batch |-> After(batch[k])]
Failed == {k \in DOMAIN Result : Result[k].st \in {"ERROR_FLAGGED", "EXCEPTION_CAUGHT"}}
Return == /\ busy /\ ~Refused /\ due = {} /\ running = {} /\ busy' = FALSE /\ batch' = Result /\ UNCHANGED <<due, running, finished, limit>>
\* an item which is neither due nor to be ignored nor processed is refused
Refuse == /\ busy /\ Refused /\ busy' = FALSE /\ UNCHANGED <<batch, due, running, finished, limit>>
=============================================================================
