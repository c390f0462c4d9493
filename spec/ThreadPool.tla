----------------------------- MODULE ThreadPool -----------------------------
(* A thread pool seen from outside: submissions, executions, futures, wait,
   change of the number of threads and destruction. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES sub,      \* tasks whose submission has been called
          acc,      \* tasks whose submission has returned
          run,      \* tasks being executed
          fin,      \* finished tasks
          out,      \* task -> outcome its function will have (set at submission)
          n,        \* configured number of threads
          waits,    \* caller -> set of tasks it has to see finished, for callers inside wait / destruction
          rsz,      \* caller -> requested number of threads, -1 none, -2 already effective
          gone      \* destruction has completed
tpVars == <<sub, acc, run, fin, out, n, waits, rsz, gone>>

InitTP(n0, callers) ==
    /\ sub = {} /\ acc = {} /\ run = {} /\ fin = {} /\ out = <<>> /\ n = n0
    /\ waits = [c \in {} |-> {}] /\ rsz = [c \in callers |-> -1] /\ gone = FALSE

Submit(k, o) == /\ k \notin sub /\ ~gone
                /\ sub' = sub \cup {k}
                /\ out' = [x \in DOMAIN out \cup {k} |-> IF x = k THEN o ELSE out[x]]
                /\ UNCHANGED <<acc, run, fin, n, waits, rsz, gone>>
Accepted(k) == /\ k \in sub \ acc /\ acc' = acc \cup {k}
               /\ UNCHANGED <<sub, run, fin, out, n, waits, rsz, gone>>
Start(k) == /\ k \in sub \ (run \cup fin)       \* exactly once
            /\ Cardinality(run) < n
            /\ ~gone
            /\ run' = run \cup {k}
            /\ UNCHANGED <<sub, acc, fin, out, n, waits, rsz, gone>>
Finish(k) == /\ k \in run /\ run' = run \ {k} /\ fin' = fin \cup {k}
             /\ UNCHANGED <<sub, acc, out, n, waits, rsz, gone>>
\* a future becomes ready only with the outcome of its own, finished task
Got(k, o) == /\ k \in fin /\ out[k] = o /\ UNCHANGED tpVars
WaitCall(c) == /\ c \notin DOMAIN waits
               /\ waits' = [x \in DOMAIN waits \cup {c} |-> IF x = c THEN acc ELSE waits[x]]
               /\ UNCHANGED <<sub, acc, run, fin, out, n, rsz, gone>>
WaitRet(c) == /\ c \in DOMAIN waits /\ waits[c] \subseteq fin
              /\ waits' = [x \in DOMAIN waits \ {c} |-> waits[x]]
              /\ UNCHANGED <<sub, acc, run, fin, out, n, rsz, gone>>
ResizeCall(c, m) == /\ rsz[c] = -1 /\ rsz' = [rsz EXCEPT ![c] = m]
                    /\ UNCHANGED <<sub, acc, run, fin, out, n, waits, gone>>
ResizeEffect(c) == /\ rsz[c] >= 0 /\ n' = rsz[c] /\ rsz' = [rsz EXCEPT ![c] = -2]
                   /\ UNCHANGED <<sub, acc, run, fin, out, waits, gone>>
ResizeRet(c) == /\ rsz[c] = -2 /\ rsz' = [rsz EXCEPT ![c] = -1]
                /\ UNCHANGED <<sub, acc, run, fin, out, n, waits, gone>>
\* destruction runs the pool empty
Destroyed(c) == /\ c \in DOMAIN waits /\ acc = sub /\ sub = fin /\ run = {}
                /\ gone' = TRUE /\ waits' = [x \in DOMAIN waits \ {c} |-> waits[x]]
                /\ UNCHANGED <<sub, acc, run, fin, out, n, rsz>>
=============================================================================
