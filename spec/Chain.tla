------------------------------- MODULE Chain -------------------------------
(* A chain of optimization algorithms (Go2): what each one starts with, how
   iterations are numbered, what is handed on and what the end result is.
   Individuals are named by the evaluation they stem from (-1: none yet);
   fitness: lower is better. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, BestLists
VARIABLES algs,    \* settings of the algorithms: keep, steps, max, stall, nrec
          order,   \* the algorithms of the chain
          best,    \* only the best individuals are handed on
          ph,      \* "out", "ready" (before a stage), "in", "fin" (the stage has ended), "over"
          st, it,  \* stage; iteration
          pool,    \* individuals between the stages
          pop,     \* those the running stage began with
          fresh,   \* evaluated in the running stage
          G,       \* fitness by evaluation
          glob,    \* the best ones each algorithm remembers
          seen,    \* evaluated (or brought along) since the chain was started
          bk, stall, ran,   \* of the running stage: best so far, iterations without improvement, iterations
          pos,     \* points done in a parameter scan
          mons,    \* whether the own monitors of an algorithm are still in place
         cnt      \* what the monitors of each algorithm have seen: starts, iterations, ends
cVars == <<algs, order, best, ph, st, it, pool, pop, fresh, G, glob, seen, bk, stall, ran, pos, mons, cnt>>
Worst == 1000000
KnownOf(s) == ElemsOf(s) \cap DOMAIN G
InitC(a, o, b) == /\ algs = a /\ order = o /\ best = b /\ ph = "out" /\ st = 0 /\ it = 0 /\ pool = << >> /\ pop = << >> /\ fresh = {}
                  /\ G = << >> /\ glob = [k \in DOMAIN a |-> << >>] /\ seen = {} /\ bk = Worst /\ stall = 0 /\ ran = 0
                  /\ pos = [k \in DOMAIN a |-> 0] /\ cnt = [k \in DOMAIN a |-> <<0, 0, 0>>] /\ mons = [k \in DOMAIN a |-> TRUE]
K == order[st]
\* they are dropped after the first stage of their algorithm, and registered anew for each chain
Bump(k, n) == cnt' = (IF mons[k] THEN [cnt EXCEPT ![k][n] = @ + 1] ELSE cnt)
GoM(off, p, m) == /\ ph = "out" /\ ph' = "ready" /\ st' = 1 /\ it' = off /\ pool' = p /\ seen' = KnownOf(p) /\ mons' = m
              /\ UNCHANGED <<algs, order, best, pop, fresh, G, bk, stall, ran, cnt>>
Go(off, p) == GoM(off, p, [k \in DOMAIN algs |-> TRUE])
\* a checkpoint brings its own monitors
GoFrom(off, p) == GoM(off, p, [k \in DOMAIN algs |-> k # 1])
\* an individual is added before the first stage
Add(i) == /\ ph = "ready" /\ st = 1 /\ pool' = Append(pool, i) /\ seen' = seen \cup ({i} \cap DOMAIN G)
          /\ UNCHANGED <<algs, order, best, ph, st, it, pop, fresh, G, glob, bk, stall, ran, pos, mons, cnt>>
Lesser(a, b) == IF a < b THEN a ELSE b
\* a stage works on the individuals of the pool: all of them, or the first ones, and copies of them
Adopts(p, q, keep) == /\ p # << >> /\ ElemsOf(p) \subseteq ElemsOf(q)
                      /\ \A i \in 1..Lesser(keep, Len(q)) : q[i] \in ElemsOf(p)
Start(p) == /\ ph = "ready" /\ st <= Len(order) /\ Adopts(p, pool, algs[K].keep)
            /\ ph' = "in" /\ pop' = p /\ fresh' = {} /\ bk' = Worst /\ stall' = 0 /\ ran' = 0 /\ Bump(K, 1)
            /\ UNCHANGED <<algs, order, best, st, it, pool, G, glob, seen, pos, mons>>
\* individual i stems from the pool or from individuals of this stage
Eval(i, o, f) == /\ i \notin DOMAIN G /\ G' = (i :> f) @@ G
                 /\ (IF ph = "in" THEN o \in (ElemsOf(pop) \cup fresh) /\ fresh' = fresh \cup {i} /\ seen' = seen \cup {i} /\ pos' = [pos EXCEPT ![K] = @ + 1]
                                  ELSE UNCHANGED <<fresh, seen, pos>>)
                 /\ UNCHANGED <<algs, order, best, ph, st, it, pool, pop, glob, bk, stall, ran, mons, cnt>>
Complete == algs[K].steps > 0 /\ pos[K] >= algs[K].steps
Ends(i, s) == \/ algs[K].max > 0 /\ i >= algs[K].max
              \/ algs[K].stall > 0 /\ s > algs[K].stall
              \/ Complete
\* p: the population left.  An individual which did not stay in it may be missing among the best, but never the best one.
Remembers(g, p) == LET S == ElemsOf(glob[K]) \cup KnownOf(pool) \cup fresh
                       M == ElemsOf(glob[K]) \cup KnownOf(pool) \cup (ElemsOf(p) \cap DOMAIN G)
                   IN \E T \in {ElemsOf(g) \cup M} : T \subseteq S /\ BestOf(G, g, T, algs[K].nrec) /\ G[g[1]] = MinOf(G, S)
Cycle(kc, g, p) == /\ ph = "in" /\ Remembers(g, p)
                /\ glob' = [glob EXCEPT ![K] = g] /\ kc \in {G[x] : x \in DOMAIN G}
                /\ bk' = (IF kc < bk THEN kc ELSE bk) /\ stall' = (IF kc < bk THEN 0 ELSE stall + 1)
                /\ it' = it + 1 /\ ran' = ran + 1 /\ Bump(K, 2)
                /\ ph' = (IF Ends(it', stall') THEN "fin" ELSE "in")
                /\ pos' = (IF Complete THEN [pos EXCEPT ![K] = 0] ELSE pos)
                /\ UNCHANGED <<algs, order, best, st, pool, pop, fresh, G, seen, mons>>
Fin(p) == /\ ph = "fin" /\ p # << >> /\ ElemsOf(p) \subseteq DOMAIN G /\ ElemsOf(p) \subseteq (ElemsOf(pop) \cup fresh)
          /\ pool' = (IF best THEN glob[K] ELSE p) /\ Bump(K, 3) /\ st' = st + 1 /\ ph' = (IF st = Len(order) THEN "over" ELSE "ready")
          /\ mons' = [mons EXCEPT ![K] = FALSE]
          /\ UNCHANGED <<algs, order, best, it, pop, fresh, G, glob, seen, bk, stall, ran, pos>>
Times(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in ElemsOf(a) : Times(a, x) = Times(b, x)
Done(r) == /\ ph = "over" /\ SameBag(r, pool) /\ \A i \in 1..(Len(r) - 1) : G[r[i]] <= G[r[i + 1]]
           /\ pool' = r /\ ph' = "out"
           /\ UNCHANGED <<algs, order, best, st, it, pop, fresh, G, glob, seen, bk, stall, ran, pos, mons, cnt>>
=============================================================================
