------------------------------ MODULE ScanTrace -----------------------------
(* Trace specification for drivers/d_scan.cpp: kind 0 = grid, 1 = random values of some
   parameters, 2 = entirely random individuals. *)
EXTENDS Scan, BestLists, TraceKit
VARIABLES run,    \* events of a run are being consumed: [on, it, off, stop]
          F,      \* fitness of all individuals evaluated so far
          now,    \* those evaluated in this iteration
          seen,   \* grid points evaluated in this run
          cnt,    \* evaluations in this run
          bad,    \* an evaluation has failed
          glob
vars == <<run, F, now, seen, cnt, bad, glob, tid, l>>
NoRun == [on |-> FALSE, it |-> 0, off |-> 0, stop |-> 0]
Cols == DOMAIN Cfg.start
Grid == Cfg.kind = 0
Scanned == {Cfg.scan[p].col : p \in DOMAIN Cfg.scan}
Tol(p) == IF Has(p, "d") /\ p.d THEN 2 ELSE 0
Init == KitInit /\ run = NoRun /\ F = << >> /\ now = {} /\ seen = {} /\ cnt = 0 /\ bad = FALSE /\ glob = {}
TStart == /\ IsEvent("start") /\ ~run.on /\ run' = [on |-> TRUE, it |-> Cur.off, off |-> Cur.off, stop |-> Cur.stop]
          /\ now' = {} /\ seen' = {} /\ cnt' = 0 /\ bad' = FALSE /\ UNCHANGED <<F, glob>>
\* everything that is not scanned keeps its value; scanned values lie on the grid or within their range
Fine(v) == /\ \A c \in Cols \ Scanned : v[c] = Cfg.start[c]
           /\ \A i \in DOMAIN Cfg.scan : LET p == Cfg.scan[i] IN
                IF Grid THEN IndexOf(p.lo, p.hi, p.n, v[p.col], Tol(p)) # {} ELSE v[p.col] >= p.lo - Tol(p) /\ v[p.col] <= p.hi + Tol(p)
PointOf(v) == [i \in DOMAIN Cfg.scan |-> LET p == Cfg.scan[i] IN CHOOSE k \in IndexOf(p.lo, p.hi, p.n, v[p.col], Tol(p)) : TRUE]
Full == Batch(Cfg.total - cnt, Cfg.batch)   \* size of this iteration's batch
TEval == /\ IsEvent("eval") /\ run.on /\ Cur.id \notin DOMAIN F
         /\ Cardinality(now) < Full
         /\ Fine(Cur.v)
         /\ (IF Grid THEN \E q \in {PointOf(Cur.v)} : q \notin seen /\ seen' = seen \cup {q} ELSE UNCHANGED seen)
         /\ bad' = (bad \/ Cur.thrown)
         /\ (IF Cur.thrown THEN UNCHANGED <<F, now>> ELSE F' = F @@ (Cur.id :> Cur.f) /\ now' = now \cup {Cur.id})
         /\ UNCHANGED <<run, cnt, glob>>
TCyc == /\ IsEvent("cyc") /\ run.on /\ Cur.it = run.it /\ Cur.vals /\ ~bad
        /\ Cardinality(now) = Full /\ Full > 0
        /\ Len(Cur.pop) = Full /\ {Cur.pop[i][1] : i \in DOMAIN Cur.pop} = now /\ Truthful(F, Cur.pop)
        /\ \E g \in {IdsOf(Cur.glob)}, it \in {IdsOf(Cur.iter)}, S \in {now} :
             /\ BestOf(F, it, S, 1000) /\ BestOf(F, g, glob \cup S, Cfg.nrec) /\ glob' = ElemsOf(g)
             /\ Truthful(F, Cur.glob) /\ Truthful(F, Cur.iter)
             /\ Cur.kb = F[g[1]] /\ Cur.kc = MinOf(F, S)
        /\ now' = {} /\ cnt' = cnt + Full /\ run' = [run EXCEPT !.it = @ + 1]
        /\ UNCHANGED <<F, seen, bad>>
\* the run ends after the last point, or when the maximum number of iterations is reached
TRet == /\ IsEvent("ret") /\ run.on /\ now = {} /\ (cnt = Cfg.total \/ (run.stop > 0 /\ run.it = run.off + run.stop))
        /\ Cur.it = run.it /\ Cur.vals /\ ElemsOf(IdsOf(Cur.glob)) = glob /\ Truthful(F, Cur.glob)
        /\ run' = NoRun /\ UNCHANGED <<F, now, seen, cnt, bad, glob>>
TReset == IsEvent("reset") /\ ~run.on /\ glob' = {} /\ UNCHANGED <<run, F, now, seen, cnt, bad>>
TFail == IsEvent("fail") /\ run.on /\ bad /\ run' = NoRun /\ UNCHANGED <<F, now, seen, cnt, bad, glob>>
TEnd == IsEvent("end") /\ ~run.on /\ UNCHANGED <<run, F, now, seen, cnt, bad, glob>>
Next == TStart \/ TEval \/ TCyc \/ TRet \/ TReset \/ TFail \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
