--------------------------- MODULE CheckpointTrace --------------------------
(* Trace specification for drivers/d_cp.cpp: the checkpoints of all algorithms.
   Files and states are numbered in the order of their appearance. *)
EXTENDS Checkpoint, BestLists, TraceKit
VARIABLES run,     \* [n, it, off]: iterations of the current run
          known,   \* best fitness of this run
          F,       \* fitness of all individuals
          seen,    \* a scan: points (grid) or evaluations (random) done since it started over
          full,    \* writing is going to fail
          at,      \* what is known about each state saved
          res      \* the resumed run: [on, st, it, lt, new, old, glob, seen]
vars == <<cpVars, run, known, F, seen, full, at, res, tid, l>>
NoRun == [n |-> 0, it |-> 0, off |-> 0]
NoRes == [on |-> FALSE, st |-> 0, it |-> 0, lt |-> 0, new |-> << >>, old |-> {}, glob |-> << >>, seen |-> {}]
None == 1000000000
Idle == run.n = 0
Alg == Cfg.alg
Scan == Alg = "ps"
Grid == Scan /\ ~Cfg.rnd
Complete(s) == Cardinality(s) = Cfg.steps
\* a complete scan starts over
Pos(s) == IF Complete(s) THEN {} ELSE s
Point(id, v) == IF Grid THEN v ELSE ToString(id)
DiskOf(s) == [n \in {s[i][1] : i \in DOMAIN s} |-> LET i == CHOOSE j \in DOMAIN s : s[j][1] = n IN s[i][2]]
Init == /\ KitInit /\ disk = << >> /\ last = NoName /\ ann = 0 /\ writing = 0 /\ run = NoRun /\ known = None /\ F = << >> /\ seen = {} /\ full = FALSE /\ at = << >> /\ res = NoRes
Same == UNCHANGED <<run, known, F, seen, full, at, res>>

\* the checkpoint of another algorithm is refused and changes nothing
TRefuse == IsEvent("refuse") /\ Idle /\ Cur.threw /\ Cur.same /\ UNCHANGED cpVars /\ Same
TStart == IsEvent("start") /\ Idle /\ run' = [n |-> Cur.n, it |-> Cur.off, off |-> Cur.off] /\ known' = None /\ seen' = Pos(seen) /\ UNCHANGED <<cpVars, F, full, at, res>>
TEval == IsEvent("eval") /\ ~Idle /\ writing = 0 /\ F' = F @@ (Cur.id :> Cur.f) /\ (Scan => Point(Cur.id, Cur.v) \notin seen) /\ seen' = (IF Scan THEN seen \cup {Point(Cur.id, Cur.v)} ELSE seen) /\ UNCHANGED <<cpVars, run, known, full, at, res>>
\* the state is being saved; a copy of the algorithm shows the same state
TSave == IsEvent("save") /\ ~Idle /\ writing = 0 /\ Cur.it = run.it /\ Cur.copy /\ Cur.st > 0 /\ writing' = Cur.st /\ UNCHANGED <<disk, last, ann>> /\ Same
TFull == IsEvent("full") /\ writing # 0 /\ full' = TRUE /\ UNCHANGED <<cpVars, run, known, F, seen, at, res>>
\* at every moment at which the files change
TFs == IsEvent("fs") /\ writing # 0 /\ Safe(DiskOf(Cur.disk)) /\ UNCHANGED cpVars /\ Same
TCyc ==
  /\ IsEvent("cyc") /\ ~Idle /\ Cur.it = run.it
  /\ known' = (IF Cur.kc < known THEN Cur.kc ELSE known)
  /\ (writing # 0) = Due(Cfg.iv, run.it, Cur.kc < known)
  /\ \E d \in {DiskOf(Cur.disk)} :
       /\ disk' = d
       /\ (IF writing = 0 THEN d = disk /\ UNCHANGED last
           ELSE \E n \in DOMAIN d : d = After(disk, Cfg.rem, n, writing) /\ last' = n)
  /\ ann' = (IF writing = 0 THEN ann ELSE writing) /\ writing' = 0
  /\ at' = (IF writing = 0 THEN at ELSE (writing :> [it |-> run.it, glob |-> IdsOf(Cur.glob), pop |-> ElemsOf(Cur.pop), lt |-> Cur.lt, seen |-> seen]) @@ at)
  /\ run' = [run EXCEPT !.it = @ + 1] /\ UNCHANGED <<F, seen, full, res>>
TRet == /\ IsEvent("ret") /\ ~Idle /\ writing = 0 /\ Cur.it = run.it /\ DiskOf(Cur.disk) = disk
        /\ ((Scan /\ Complete(seen)) \/ run.it = run.off + run.n) /\ (Scan => Cardinality(seen) <= Cfg.steps)
        /\ run' = NoRun /\ UNCHANGED <<cpVars, known, F, seen, full, at, res>>
\* only a failed write ends a run; what has been saved before is still there
TFail == /\ IsEvent("fail") /\ ~Idle /\ full /\ writing # 0
         /\ \E d \in {DiskOf(Cur.disk)} : Safe(d) /\ disk' = d
         /\ writing' = 0 /\ run' = NoRun /\ UNCHANGED <<last, ann, known, F, seen, full, at, res>>
\* loading a file leads to the state saved there
TLoad == /\ IsEvent("load") /\ Idle /\ Cur.name \in DOMAIN disk /\ Cur.st = disk[Cur.name] /\ Cur.st \in DOMAIN at /\ Cur.it = at[Cur.st].it
         /\ \E a \in {at[Cur.st]} : res' = [on |-> TRUE, st |-> Cur.st, it |-> a.it + 1, lt |-> a.lt, new |-> << >>, old |-> a.pop, glob |-> a.glob, seen |-> Pos(a.seen)]
         /\ UNCHANGED <<cpVars, run, known, F, seen, full, at>>
\* the resumed run continues from there
TReval == /\ IsEvent("reval") /\ res.on /\ Cur.old \in res.old \cup DOMAIN res.new
          /\ (Scan => Point(Cur.id, Cur.v) \notin res.seen)
          /\ res' = [res EXCEPT !.new = @ @@ (Cur.id :> Cur.f), !.seen = (IF Scan THEN @ \cup {Point(Cur.id, Cur.v)} ELSE @)] /\ UNCHANGED <<cpVars, run, known, F, seen, full, at>>
Near(x, y) == x - y <= 4 /\ y - x <= 4
TRcyc == /\ IsEvent("rcyc") /\ res.on /\ Cur.it = res.it
         /\ (Alg = "sa" => Near(Cur.lt, res.lt + Cfg.lal))
         /\ \E G \in {F @@ res.new}, g \in {IdsOf(Cur.glob)} :
              /\ Distinct(g) /\ Truthful(G, Cur.glob) /\ ElemsOf(g) \subseteq (ElemsOf(res.glob) \cup res.old \cup DOMAIN res.new)
              /\ \A i \in 1..(Len(g) - 1) : G[g[i]] <= G[g[i + 1]]
              /\ \A x \in ElemsOf(res.glob) \ ElemsOf(g) : Len(g) = Cfg.nrec /\ G[x] >= G[g[Len(g)]]
              /\ res' = [res EXCEPT !.it = @ + 1, !.lt = Cur.lt, !.glob = g]
         /\ UNCHANGED <<cpVars, run, known, F, seen, full, at>>
\* ... exactly as the object in memory would have done
TCont == /\ IsEvent("cont") /\ res.on /\ Cur.equal /\ Cur.it = res.it
         /\ (IF Scan THEN Complete(res.seen) ELSE Cur.threw # "" \/ res.it = at[res.st].it + 1 + Cur.m)
         /\ res' = NoRes /\ UNCHANGED <<cpVars, run, known, F, seen, full, at>>
TEnd == IsEvent("end") /\ Idle /\ ~res.on /\ UNCHANGED cpVars /\ Same
Next == TRefuse \/ TStart \/ TEval \/ TSave \/ TFull \/ TFs \/ TCyc \/ TRet \/ TFail \/ TLoad \/ TReval \/ TRcyc \/ TCont \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
