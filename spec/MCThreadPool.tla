---------------------------- MODULE MCThreadPool ----------------------------
(* The pool's algorithm (submission lock, task counter, condition variable, run
   queue, worker threads recreated on shrinking) for small constants, checked
   against the promises of C02.  The variables mirror GThreadPool. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Users, Tasks, N0, N1       \* initial and later number of threads
VARIABLES pc, subLock, counter, queue, started, workers, busy, ran, mustSee, nthr, left, alive
vars == <<pc, subLock, counter, queue, started, workers, busy, ran, mustSee, nthr, left, alive>>
None == 0
Init == /\ pc = [u \in Users |-> "idle"] /\ subLock = None /\ counter = 0 /\ queue = <<>> /\ started = FALSE
        /\ workers = 0 /\ busy = {} /\ ran = [t \in Tasks |-> 0] /\ mustSee = [u \in Users |-> {}]
        /\ nthr = N0 /\ left = Tasks /\ alive = TRUE
Lock(u, next) == /\ subLock = None /\ subLock' = u /\ pc' = [pc EXCEPT ![u] = next]
Accepted == Tasks \ left
\* async_schedule
SubmitBegin(u) == pc[u] = "idle" /\ left # {} /\ alive /\ Lock(u, "submit") /\ UNCHANGED <<counter, queue, started, workers, busy, ran, mustSee, nthr, left, alive>>
SubmitDo(u) == /\ pc[u] = "submit"
               /\ \E t \in left : /\ left' = left \ {t} /\ counter' = counter + 1 /\ queue' = Append(queue, t)
               /\ started' = TRUE /\ workers' = IF started THEN workers ELSE nthr
               /\ subLock' = None /\ pc' = [pc EXCEPT ![u] = "idle"]
               /\ UNCHANGED <<busy, ran, mustSee, nthr, alive>>
\* workers
Take == /\ queue # <<>> /\ Cardinality(busy) < workers
        /\ busy' = busy \cup {Head(queue)} /\ queue' = Tail(queue)
        /\ ran' = [ran EXCEPT ![Head(queue)] = @ + 1]
        /\ UNCHANGED <<pc, subLock, counter, started, workers, mustSee, nthr, left, alive>>
Done(t) == /\ t \in busy /\ busy' = busy \ {t} /\ counter' = counter - 1
           /\ UNCHANGED <<pc, subLock, queue, started, workers, ran, mustSee, nthr, left, alive>>
\* wait / resize / destruction: take the lock, let the counter run to zero
WaitBegin(u) == pc[u] = "idle" /\ alive /\ Lock(u, "waiting") /\ mustSee' = [mustSee EXCEPT ![u] = Accepted] /\ UNCHANGED <<counter, queue, started, workers, busy, ran, nthr, left, alive>>
WaitEnd(u) == pc[u] = "waiting" /\ counter = 0 /\ subLock' = None /\ pc' = [pc EXCEPT ![u] = "waited"] /\ UNCHANGED <<counter, queue, started, workers, busy, ran, mustSee, nthr, left, alive>>
WaitRet(u) == pc[u] = "waited" /\ pc' = [pc EXCEPT ![u] = "idle"] /\ UNCHANGED <<subLock, counter, queue, started, workers, busy, ran, mustSee, nthr, left, alive>>
ResizeBegin(u) == pc[u] = "idle" /\ alive /\ nthr # N1 /\ Lock(u, "resizing") /\ UNCHANGED <<counter, queue, started, workers, busy, ran, mustSee, nthr, left, alive>>
ResizeEnd(u) == /\ pc[u] = "resizing" /\ counter = 0
                /\ workers' = IF started THEN N1 ELSE 0
                /\ nthr' = N1 /\ subLock' = None /\ pc' = [pc EXCEPT ![u] = "idle"]
                /\ UNCHANGED <<counter, queue, started, busy, ran, mustSee, left, alive>>
DestroyBegin(u) == /\ left = {} /\ alive /\ \A v \in Users : pc[v] = "idle"
                   /\ Lock(u, "destroying") /\ alive' = FALSE /\ UNCHANGED <<counter, queue, started, workers, busy, ran, mustSee, nthr, left>>
DestroyEnd(u) == /\ pc[u] = "destroying" /\ counter = 0 /\ workers' = 0 /\ subLock' = None /\ pc' = [pc EXCEPT ![u] = "gone"]
                 /\ UNCHANGED <<counter, queue, started, busy, ran, mustSee, nthr, left, alive>>
Next == Take \/ (\E t \in Tasks : Done(t)) \/ \E u \in Users : SubmitBegin(u) \/ SubmitDo(u) \/ WaitBegin(u) \/ WaitEnd(u) \/ WaitRet(u) \/ ResizeBegin(u) \/ ResizeEnd(u) \/ DestroyBegin(u) \/ DestroyEnd(u)
Spec == /\ Init /\ [][Next]_vars /\ WF_vars(Take) /\ \A t \in Tasks : WF_vars(Done(t))
        /\ \A u \in Users : /\ WF_vars(SubmitDo(u)) /\ WF_vars(WaitEnd(u)) /\ WF_vars(ResizeEnd(u)) /\ WF_vars(DestroyEnd(u))
Finished(t) == ran[t] > 0 /\ t \notin busy
AtMostOnce == \A t \in Tasks : ran[t] <= 1
CounterExact == counter = Len(queue) + Cardinality(busy)
WaitSeesAll == \A u \in Users : pc[u] = "waited" => \A t \in mustSee[u] : Finished(t)
Bounded == Cardinality(busy) <= IF workers > nthr THEN workers ELSE nthr
GoneDrained == (\E u \in Users : pc[u] = "gone") => \A t \in Tasks : ran[t] = 1 /\ t \notin busy
EveryTaskRuns == \A t \in Tasks : (t \notin left) ~> Finished(t)
WaitEnds == \A u \in Users : (pc[u] \in {"waiting", "resizing", "destroying"}) ~> (pc[u] \in {"waited", "idle", "gone"})
=============================================================================
