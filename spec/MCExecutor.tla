----------------------------- MODULE MCExecutor -----------------------------
EXTENDS Executor
CONSTANTS Positions, Threads, Calls
VARIABLES n, gen
Sts == {"DO_PROCESS", "DO_IGNORE", "KEEP"}
NewBatch(f, plan) == [k \in 1..Positions |-> IF f[k] = "DO_PROCESS" \/ k \notin DOMAIN batch THEN [id |-> gen + k, st |-> IF f[k] = "KEEP" THEN "DO_IGNORE" ELSE f[k], res |-> -7, plan |-> plan[k]]
                                             ELSE IF f[k] = "DO_IGNORE" THEN [batch[k] EXCEPT !.st = "DO_IGNORE", !.res = -7] ELSE batch[k]]
Init == InitX(Threads) /\ n = 0 /\ gen = 0
Next == \/ /\ n < Calls /\ \E f \in [1..Positions -> Sts], p \in [1..Positions -> 0..2] : Call(NewBatch(f, p)) 
           /\ n' = n + 1 /\ gen' = gen + Positions
        \/ UNCHANGED <<n, gen>> /\ ((\E i \in 1..gen : Exec(i) \/ Fin(i)) \/ Return \/ Refuse)
Spec == Init /\ [][Next]_<<xVars, n, gen>> /\ WF_<<xVars, n, gen>>(UNCHANGED <<n, gen>> /\ ((\E i \in 1..gen : Exec(i) \/ Fin(i)) \/ Return \/ Refuse))
OncePerCall == busy => (due \cap running = {} /\ due \cap finished = {} /\ running \cap finished = {} /\ due \cup running \cup finished = Ids(batch, {"DO_PROCESS"}))
\* a result that can be read belongs to the item in that place, and only successful items show one
OwnResult == \A k \in DOMAIN batch : (batch[k].res # -7 => batch[k].res = batch[k].id * 7 /\ batch[k].st = "PROCESSED")
AllTold == ~busy => \A k \in DOMAIN batch : batch[k].st # "DO_PROCESS" \/ Refused
Returns == busy ~> ~busy
=============================================================================
