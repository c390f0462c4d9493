----------------------------- MODULE SwarmTrace -----------------------------
(* Trace specification for drivers/d_swarm.cpp. *)
EXTENDS Swarm, TraceKit
VARIABLES run,      \* the events of a run are being consumed: [off, n, it]
          st,       \* population at the start of the run: [id, v, f]
          P,        \* positions at each evaluation
          begin,    \* neighbourhoods and positions evaluated in the first iteration
          cnt,      \* evaluations of this iteration in each neighbourhood
          known, stall,   \* best fitness of an iteration of this run; iterations without progress
          glob,     \* best individuals of all runs
          mv        \* moves with just one attraction: [n: number, s: sum of the parts of the way covered, in 1/1000]
vars == <<swVars, run, st, P, begin, cnt, known, stall, glob, mv, tid, l>>

nn == Cfg.nn
mem == Cfg.mem
Hoods == 0..(nn - 1)
None == 1000000000
Unknown == 5000000
Idle == run.n = 0
Zero(t) == [n \in 0..(Traces[t].cfg.nn - 1) |-> 0]
Init == /\ KitInit /\ F = << >> /\ N = << >> /\ L = << >> /\ pop = << >> /\ ret = {} /\ left = {} /\ first = TRUE /\ nbb = << >> /\ gbb = NoOne /\ hist = {}
        /\ run = [off |-> 0, n |-> 0, it |-> 0] /\ st = << >> /\ P = << >> /\ begin = {} /\ cnt = Zero(tid) /\ known = None /\ stall = 0 /\ glob = {} /\ mv = [n |-> 0, s |-> 0]

TStart ==
  /\ IsEvent("start") /\ Idle
  /\ LET s == [i \in DOMAIN Cur.pop |-> [id |-> Cur.pop[i][1], v |-> Cur.pop[i][2], f |-> Cur.pop[i][3]]]
         clean == {i \in DOMAIN s : s[i].f # Unknown} IN
     /\ \A i \in clean : s[i].id \in DOMAIN F /\ F[s[i].id] = s[i].f /\ P[s[i].id] = s[i].v
     /\ ((pop # << >> /\ ~Cur.fresh) => [i \in DOMAIN s |-> s[i].id] = [i \in DOMAIN pop |-> pop[i].id])
     /\ st' = s /\ glob' = glob \cup {s[i].id : i \in clean}
  /\ run' = [off |-> Cur.off, n |-> Cur.n, it |-> Cur.off] /\ first' = TRUE /\ ret' = {} /\ left' = {} /\ hist' = {}
  /\ begin' = {} /\ cnt' = Zero(tid) /\ known' = None /\ stall' = 0
  /\ UNCHANGED <<F, N, L, pop, nbb, gbb, P, mv>>

\* ---- movement: towards the own best, the best of the neighbourhood and, with several of them, that of the swarm
Abs(x) == IF x < 0 THEN -x ELSE x
Mi(x) == IF x < 0 THEN x ELSE 0
Ma(x) == IF x > 0 THEN x ELSE 0
Limit == 100000
Flip == Cfg.rep > 0 /\ stall >= Cfg.rep
C(k) == CASE k = 1 -> Cfg.cp [] k = 2 -> Cfg.cn [] OTHER -> IF nn > 1 THEN Cfg.cg ELSE 0
Pull(k, b, x) == (C(k) * ((b - x) \div 10)) \div 100
Moves(x, v, bests) ==
  /\ Len(v) = Len(x)
  /\ (Cfg.idle => v[Len(v)] = x[Len(x)])
  /\ \A d \in 1..Cfg.dims :
       LET diff == IF Flip THEN x[d] - v[d] ELSE v[d] - x[d]
           lo == Mi(Pull(1, bests[1][d], x[d])) + Mi(Pull(2, bests[2][d], x[d])) + Mi(Pull(3, bests[3][d], x[d]))
           hi == Ma(Pull(1, bests[1][d], x[d])) + Ma(Pull(2, bests[2][d], x[d])) + Ma(Pull(3, bests[3][d], x[d]))
           a == (IF Flip THEN Mi(-hi) ELSE Mi(lo))  b == (IF Flip THEN Ma(-lo) ELSE Ma(hi)) IN
       /\ v[d] >= -Limit /\ v[d] <= Limit
       /\ (Cfg.cv = 0 /\ x[d] + a > -Limit /\ x[d] + b < Limit => diff >= lo - 30 /\ diff <= hi + 30)
       /\ (x[d] - Cfg.vm > -Limit /\ x[d] + Cfg.vm < Limit => Abs(diff) <= Cfg.vm + 3)
  \* the linear rule moves along a straight line
  /\ LET act == {k \in 1..3 : C(k) > 0} IN
     (~Cfg.classic /\ Cfg.cv = 0 /\ Cardinality(act) = 1 /\ Cfg.dims = 2 /\ (\A d \in 1..2 : Abs(x[d]) + Cfg.vm < Limit) =>
        LET k == CHOOSE j \in act : TRUE
            d1 == (v[1] - x[1]) \div 10  d2 == (v[2] - x[2]) \div 10
            e1 == (bests[k][1] - x[1]) \div 10  e2 == (bests[k][2] - x[2]) \div 10 IN
        Abs((d1 * e2) - (d2 * e1)) <= 2 * (Abs(d1) + Abs(d2) + Abs(e1) + Abs(e2)) + 4)

\* the part of the way is evenly distributed
Act == {k \in 1..3 : C(k) > 0}
Measured(x, v, bests) ==
  LET k == CHOOSE j \in Act : TRUE  w == Pull(k, bests[k][1], x[1]) IN
  IF Abs(w) < 500 \/ Abs(x[1]) + Abs(w) >= Limit \/ Abs(w) > Cfg.vm \/ (Cfg.dims = 2 /\ Abs(Pull(k, bests[k][2], x[2])) > Cfg.vm)
  THEN mv ELSE [n |-> mv.n + 1, s |-> mv.s + ((IF Flip THEN x[1] - v[1] ELSE v[1] - x[1]) * 1000) \div w]
Root(v) == CHOOSE b \in 0..400 : b * b >= v /\ (b = 0 \/ (b - 1) * (b - 1) < v)
Even == Abs(mv.s - (500 * mv.n)) <= (1740 * (Root(mv.n) + 1)) + mv.n

Best1(n, f) == n = NoOne \/ (n \in DOMAIN F /\ F[n] = f)
Step(i) == pop[i].id = Cur.old /\ pop[i].nb = Cur.nb /\ pop[i].due = (Cur.pb[1] = NoOne)
TEval ==
  /\ IsEvent("eval") /\ Cur.id \notin DOMAIN F
  /\ Best1(Cur.pb[1], Cur.pb[2])
  /\ (IF Idle THEN left' = left /\ begin' = begin /\ cnt' = cnt
      ELSE /\ Cur.nb \in Hoods
           /\ (Cur.pb[1] # NoOne => Cur.pb[1] \in PersonalBests(F, L, Cur.old))
           /\ (IF Cur.late THEN ~first /\ left' = left /\ begin' = begin /\ cnt' = cnt /\ (Cur.pb[1] # NoOne => N[Cur.old] = Cur.nb)
               ELSE /\ cnt' = [cnt EXCEPT ![Cur.nb] = @ + 1]
                    /\ (IF first THEN Cur.old \in {st[i].id : i \in DOMAIN st} /\ Cur.pb[1] = NoOne /\ left' = left /\ begin' = begin \cup {<<Cur.nb, Cur.v>>}
                        ELSE /\ begin' = begin
                             /\ \E i \in left : Step(i) /\ left' = left \ {CHOOSE j \in left : Step(j)}
                             /\ (Cur.pb[1] # NoOne => Moves(P[Cur.old], Cur.v, <<P[Cur.pb[1]], P[nbb[Cur.nb]], P[gbb]>>)))))
  /\ (IF Cur.thrown THEN UNCHANGED <<F, N, L, ret, P>>
      ELSE /\ Returned(Cur.id, Cur.nb, Cur.f, (IF Cur.pb[1] = NoOne THEN {} ELSE L[Cur.old]), ~Idle)
           /\ P' = P @@ (Cur.id :> Cur.v))
  /\ mv' = (IF ~Idle /\ ~first /\ ~Cur.late /\ Cur.pb[1] # NoOne /\ Cfg.cv = 0 /\ Cardinality(Act) = 1
             THEN Measured(P[Cur.old], Cur.v, <<P[Cur.pb[1]], P[nbb[Cur.nb]], P[gbb]>>) ELSE mv)
  /\ UNCHANGED <<pop, first, nbb, gbb, hist, run, st, known, stall, glob>>

\* everybody is evaluated in the first iteration; the positions supplied are among the starting points
Total == nn * mem
Surplus == IF Len(st) > Total THEN Len(st) - Total ELSE 0
Began ==
  /\ (\A n \in Hoods : cnt[n] = mem + (IF n = nn - 1 THEN Surplus ELSE 0))
  /\ (IF Len(st) >= Total THEN \A i \in DOMAIN st : <<(IF (i - 1) \div mem < nn THEN (i - 1) \div mem ELSE nn - 1), st[i].v>> \in begin
      ELSE /\ \A i \in DOMAIN st : i <= nn => <<i - 1, st[i].v>> \in begin
           /\ (~Cfg.fill => \A p, q \in begin : p[1] = q[1] => p = q))

NoCopies(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
BestList(g, S, n) == /\ NoCopies(g) /\ Len(g) = (IF Cardinality(S) < n THEN Cardinality(S) ELSE n) /\ Elems(g) \subseteq S
                     /\ \A i \in 1..(Len(g) - 1) : F[g[i]] <= F[g[i + 1]]
                     /\ \A x \in (S \ Elems(g)) : g # << >> /\ F[x] >= F[g[Len(g)]]
Ids(s) == [i \in DOMAIN s |-> s[i][1]]
Min(S) == F[CHOOSE x \in S : \A y \in S : F[x] <= F[y]]
TCyc ==
  /\ IsEvent("cyc") /\ ~Idle /\ Cur.it = run.it /\ Cur.vals
  /\ (~Cfg.flaky => IF first THEN Began ELSE left = {})
  /\ (first => \A n \in Hoods : cnt[n] <= mem + (IF n = nn - 1 THEN Surplus ELSE 0))
  /\ \E new \in {[i \in DOMAIN Cur.pop |-> [id |-> Cur.pop[i].id, due |-> Cur.pop[i].due, nb |-> Cur.pop[i].nb]]} :
     \E live \in {{new[i].id : i \in {j \in DOMAIN new : ~new[j].due}}}, g \in {Ids(Cur.glob)}, it \in {Ids(Cur.iter)}, nb \in {[n \in Hoods |-> Cur.nbs[n + 1][1]]} :
     \E best \in {Min(IF ret = {} THEN live ELSE ret)} :
     /\ Finish(nn, mem, new, nb, Cur.gb[1])
     /\ gbb' # NoOne /\ Best1(gbb', Cur.gb[2]) /\ \A n \in Hoods : Best1(nbb'[n], Cur.nbs[n + 1][2])
     /\ \A i \in DOMAIN new : IF new[i].due THEN Cur.pop[i].pb[1] = NoOne
                              ELSE F[new[i].id] = Cur.pop[i].f /\ Cur.pop[i].pb[1] \in PersonalBests(F, L, new[i].id) /\ F[Cur.pop[i].pb[1]] = Cur.pop[i].pb[2]
     /\ BestList(it, live, 1000) /\ BestList(g, glob \cup live, Cfg.nrec) /\ glob' = Elems(g)
     /\ \A i \in DOMAIN g : Cur.glob[i][2] = F[g[i]]
     /\ \A i \in DOMAIN it : Cur.iter[i][2] = F[it[i]]
     /\ \A x \in hist' : F[x] >= F[g[1]]
     /\ Cur.kb = F[g[1]] /\ Cur.kc = best
     /\ known' = (IF best < known THEN best ELSE known) /\ stall' = (IF best < known THEN 0 ELSE stall + 1)
  /\ cnt' = Zero(tid) /\ run' = [run EXCEPT !.it = @ + 1]
  /\ UNCHANGED <<F, N, L, st, P, begin, mv>>

TRet ==
  /\ IsEvent("ret") /\ ~Idle /\ run.it = run.off + run.n /\ Cur.vals
  /\ Elems(Ids(Cur.glob)) = glob /\ \A i \in DOMAIN Cur.glob : Cur.glob[i][2] = F[Cur.glob[i][1]]
  /\ run' = [off |-> 0, n |-> 0, it |-> 0]
  /\ UNCHANGED <<swVars, st, P, begin, cnt, known, stall, glob, mv>>
\* a run may fail only if nobody returns from its first iteration
TFail ==
  /\ IsEvent("fail") /\ ~Idle /\ first /\ ret = {}
  /\ run' = [off |-> 0, n |-> 0, it |-> 0]
  /\ UNCHANGED <<swVars, st, P, begin, cnt, known, stall, glob, mv>>
TEnd == IsEvent("end") /\ Idle /\ Even /\ UNCHANGED <<swVars, run, st, P, begin, cnt, known, stall, glob, mv>>
Next == TStart \/ TEval \/ TCyc \/ TRet \/ TFail \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
