----------------------------- MODULE ChainTrace -----------------------------
(* Conformance of Go2 with real algorithms. *)
EXTENDS TraceKit, Chain
VARIABLES n,      \* individuals to be created by the content creator, -1: none
          hist    \* what checkpoints of the first algorithm may hold: <<iteration, population, best list, position in a scan>>
vars == <<kitVars, cVars, n, hist>>
Init == KitInit /\ InitC(Cfg.algs, Cfg.order, Cfg.best) /\ n = -1 /\ hist = {}
Cnt == \A k \in DOMAIN algs : Cfg.dflt \/ Cur.cnt[k] = cnt'[k]
ListOK(s) == Truthful(G, s) /\ Cur.vals
TGo == /\ IsEvent("go") /\ n' = Cur.n /\ UNCHANGED hist
       /\ (IF Cur.cp < 0 THEN /\ Go(Cur.off, Cur.pool) /\ UNCHANGED <<glob, pos>> /\ (Cur.n < 0 => Cur.pool # << >>) /\ (pool # << >> => Cur.pool = pool)
                         ELSE \E h \in hist : /\ h[1] = Cur.cp /\ Cur.pool = << >> /\ GoFrom(Cur.cp + 1, h[2])
                                              /\ glob' = [glob EXCEPT ![1] = h[3]] /\ pos' = [pos EXCEPT ![1] = h[4]])
TMade == IsEvent("made") /\ n >= 0 /\ Len(pool) < n /\ Add(Cur.id) /\ UNCHANGED <<n, hist>>
TInit == /\ IsEvent("init") /\ (n >= 0 => Len(pool) >= n) /\ Start(Cur.pop) /\ Cur.k = K /\ Cur.it = it /\ Cnt /\ n' = -1 /\ UNCHANGED hist
TEval == IsEvent("eval") /\ Eval(Cur.id, Cur.old, Cur.f) /\ (ph # "in" => (ph = "out" \/ (ph = "ready" /\ n >= 0))) /\ UNCHANGED <<n, hist>>
TCyc == /\ IsEvent("cyc") /\ Cur.k = K /\ Cur.it = it /\ ListOK(Cur.glob) /\ Cycle(Cur.kc, IdsOf(Cur.glob), Cur.pop) /\ Cnt
        /\ hist' = (IF K = 1 THEN hist \cup {<<it, Cur.pop, IdsOf(Cur.glob), pos'[1]>>} ELSE hist) /\ UNCHANGED n
TFin == /\ IsEvent("fin") /\ Cur.k = K /\ Cur.it = it /\ ListOK(Cur.glob) /\ IdsOf(Cur.glob) = glob[K] /\ Fin(Cur.pop) /\ Cnt /\ UNCHANGED <<n, hist>>
TDone == /\ IsEvent("done") /\ Cur.it = it /\ ListOK(Cur.res) /\ Done(IdsOf(Cur.res)) /\ Cur.best = <<Cur.res[1]>>
         /\ (best => G[pool'[1]] <= MinOf(G, seen)) /\ UNCHANGED <<n, hist>>
TEnd == IsEvent("end") /\ UNCHANGED <<cVars, n, hist>>
Next == TGo \/ TMade \/ TInit \/ TEval \/ TCyc \/ TFin \/ TDone \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
