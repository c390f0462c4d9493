------------------------------ MODULE AlgTrace ------------------------------
(* Trace specification for drivers/d_alg.cpp: evolutionary algorithm (modes
   0..4) and simulated annealing. *)
EXTENDS EvoAlg, TraceKit
VARIABLES run,      \* the events of a run are being consumed: [off, n, it]
          late,     \* individuals which returned late in this iteration
          nev,      \* evaluations done in this iteration
          temp,     \* logarithm of the temperature (simulated annealing)
          stat      \* decisions of simulated annealing: [acc, exp, var]
vars == <<evoVars, run, late, nev, temp, stat, tid, l>>

Sa == Cfg.alg = "sa"
Mode == IF Sa THEN -1 ELSE Cfg.mode
np == Cfg.np
Multi == Cfg.ncrit > 1 /\ Mode \in {PPLUS, PCOMMA}
TooSmall == CASE Mode \in {COMMA, RETAIN} \/ Sa \/ (Mode = PCOMMA /\ Cfg.ncrit = 1) -> ds < 2 * np
              [] OTHER -> ds <= np
Idle == run.n = 0
Add(S) == SetToSeq(S)

Init == /\ KitInit /\ F = [x \in {} |-> << >>] /\ par = << >> /\ chi = << >> /\ ds = Traces[tid].cfg.ds /\ first = TRUE /\ pop = << >> /\ glob = << >>
        /\ known = None /\ acc = {} /\ run = [off |-> 0, n |-> 0, it |-> 0] /\ late = << >> /\ nev = 0 /\ temp = (IF Traces[tid].cfg.alg = "sa" THEN Traces[tid].cfg.lt0 ELSE 0) /\ stat = [acc |-> 0, exp |-> 0, var |-> 0]

Ids(p) == [i \in DOMAIN p |-> p[i][1]]
Learn(id, f) == F' = F @@ (id :> f)

Unknown == 5000000     \* stands for the fitness of an individual not evaluated yet
TStart ==
  /\ IsEvent("start") /\ Idle
  /\ LET ids == Ids(Cur.pop)
         full == ids \o Copies(ids[1], Shortage(ds, Len(ids)))
         seen == {i \in DOMAIN ids : Cur.pop[i][2] # Unknown}
         clean == {ids[i] : i \in seen} IN
     /\ pop \in {<< >>, ids}
     /\ par' = SubSeq(full, 1, np) /\ pop' = full
     /\ \A i \in seen : ids[i] \in DOMAIN F /\ F[ids[i]][1] = Cur.pop[i][2]
     /\ glob' = SetToSeq(Range(glob) \cup clean)   \* cut to its length with the next iteration
  /\ run' = [off |-> Cur.off, n |-> Cur.n, it |-> Cur.off] /\ first' = TRUE /\ known' = None /\ acc' = {} /\ chi' = << >> /\ late' = << >> /\ nev' = 0
  /\ UNCHANGED <<F, ds, temp, stat>>

Old == Cur.old \in Range(par)
TEval ==
  /\ IsEvent("eval")
  /\ Cur.id \notin DOMAIN F
  /\ Cur.late \/ Idle \/ Old
  /\ nev' = (IF Cur.late THEN nev ELSE nev + 1)
  /\ (IF Cur.thrown THEN UNCHANGED <<F, chi, late>> ELSE
      /\ Learn(Cur.id, Cur.f)
      /\ (IF Idle THEN UNCHANGED <<chi, late>>
          ELSE IF Cur.late THEN chi' = chi /\ late' = (IF Cur.par THEN late ELSE Append(late, Cur.id))
          ELSE chi' = Append(chi, Cur.id) /\ late' = late))
  /\ UNCHANGED <<par, ds, first, pop, glob, known, acc, run, temp, stat>>

\* ---- simulated annealing: the i-th best parent against the i-th best child
Nth(s, i) == LET RECURSIVE q(_, _)
                 q(t, k) == LET m == Min1(F, t) IN IF k <= Cardinality({j \in DOMAIN t : F[t[j]][1] = m}) THEN m
                            ELSE q(SelectSeq(t, LAMBDA x : F[x][1] # m), k - Cardinality({j \in DOMAIN t : F[t[j]][1] = m})) IN q(s, i)
Minus(s, t) == {x \in Range(s) : Times(s, x) > Times(t, x)}
PFix(d) == IF d <= 0 THEN 1000 ELSE IF d > Len(Cur.p) THEN 0 ELSE Cur.p[d]      \* 1000 * exp(-d / T)
Must(d) == d <= 0 \/ Cur.p[1] = 1001                                           \* 1001: the temperature is practically infinite
MayNot(d) == d > 0 /\ (d > Len(Cur.p) \/ Cur.p[d] = -1)                           \* -1: practically impossible
AccStep(old, kids, A, sel) ==
  LET c == [i \in 1..np |-> Nth(kids, i)]
      kept == SelectSeq([i \in 1..np |-> <<i, old[i]>>], LAMBDA q : q[1] \notin A)
      keptIds == [i \in DOMAIN kept |-> kept[i][2]] IN
  /\ \A i \in 1..np : (Must(c[i] - F[old[i]][1]) => i \in A) /\ (MayNot(c[i] - F[old[i]][1]) => i \notin A)
  /\ Within(keptIds, sel) /\ Sorted(F, sel) /\ Len(sel) = np
  /\ \A x \in Range(sel) : Times(sel, x) - Times(keptIds, x) <= Times(kids, x)
  /\ \A v \in {c[i] : i \in 1..np} \cup {F[x][1] : x \in Range(sel)} :
       Cardinality({i \in A : c[i] = v}) = Cardinality({i \in DOMAIN sel : F[sel[i]][1] = v}) - Cardinality({i \in DOMAIN keptIds : F[keptIds[i]][1] = v})
  /\ LET free == {i \in 1..np : ~Must(c[i] - F[old[i]][1]) /\ ~MayNot(c[i] - F[old[i]][1])}
         RECURSIVE sum(_)
         sum(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE j \in S : TRUE IN PFix(c[i] - F[old[i]][1]) + sum(S \ {i})
         RECURSIVE sv(_)
         sv(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE j \in S : TRUE IN LET w == PFix(c[i] - F[old[i]][1]) IN (w * (1000 - w)) \div 1000 + sv(S \ {i}) IN
     stat' = [acc |-> stat.acc + 1000 * Cardinality(A \cap free), exp |-> stat.exp + sum(free), var |-> stat.var + sv(free)]
\* parents first: in the first iteration they are the survivors at the front of the population
SaSelected(size, new) ==
  \E all \in Completions((IF first THEN << >> ELSE par) \o chi \o late, size) :
    LET old0 == SubSeq(all, 1, np) kids == SubSeq(all, np + 1, Len(all)) IN
      /\ Len(new) = size
      /\ \E A \in SUBSET (1..np) : AccStep(old0, kids, A, SubSeq(new, 1, np))
      /\ Within(new, all)
\* -------------------------------------------------------------------------

TCyc ==
  /\ IsEvent("cyc") /\ ~Idle /\ Cur.it = run.it
  /\ LET new == Ids(Cur.pop)
         size == IF first THEN ds ELSE Grown(ds, Cfg.rate, Cfg.mx)
         old == IF first THEN << >> ELSE par
         offered == Range(new) \cup Range(glob) IN
     /\ ds' = size
     /\ (~Cfg.flaky => nev = (IF first THEN Len(pop) ELSE size - np))
     /\ nev <= (IF first THEN Len(pop) ELSE size - np)
     /\ \A i \in DOMAIN new : new[i] \in DOMAIN F /\ Cur.pop[i][2] = F[new[i]]
     /\ Cur.vals
     /\ (IF Sa THEN SaSelected(size, new) /\ temp' = Cur.lt /\ Cur.lt - temp \in (Cfg.lal - 3)..(Cfg.lal + 3)
         ELSE Selected(F, Mode, first, np, size, new, old, chi \o late) /\ UNCHANGED <<stat, temp>>)
     /\ par' = SubSeq(new, 1, np) /\ pop' = new
     /\ acc' = acc \cup Range(chi) \cup Range(late)
     /\ LET k == F[new[1]][1] g == Ids(Cur.glob) it == Ids(Cur.iter) IN
        /\ Cur.kc = k /\ known' = (IF k < known THEN k ELSE known) /\ (g # << >> => Cur.kb = F[g[1]][1])
        /\ \A i \in DOMAIN g : Cur.glob[i][2] = F[g[i]][1]
        /\ \A i \in DOMAIN it : Cur.iter[i][2] = F[it[i]][1]
        /\ glob' = g
        /\ (IF Multi THEN LET judged == (IF Mode = PPLUS \/ first THEN old \o chi \o late ELSE chi \o late)
                              fr == {x \in Range(new) \cap Range(judged) : OnFront(F, x, judged)} IN
                (IF Mode = PPLUS \/ first \/ Len(chi \o late) > 0 THEN BestList(F, g, fr, Cfg.nrec) /\ BestList(F, it, fr, 1000) ELSE TRUE)
            ELSE /\ BestList(F, g, offered, Cfg.nrec) /\ BestList(F, it, Range(new), 1000)
                 \* nothing accepted so far is better than the best known solution
                 /\ \A x \in acc' : F[x][1] >= F[g[1]][1])
  /\ first' = FALSE /\ chi' = << >> /\ late' = << >> /\ nev' = 0
  /\ run' = [run EXCEPT !.it = @ + 1]
  /\ UNCHANGED F

TRet ==
  /\ IsEvent("ret") /\ ~Idle /\ run.it = run.off + run.n /\ Cur.vals
  /\ Cur.glob = [i \in DOMAIN glob |-> <<glob[i], F[glob[i]][1]>>]
  /\ run' = [off |-> 0, n |-> 0, it |-> 0]
  /\ UNCHANGED <<evoVars, late, nev, temp, stat>>

\* a run may fail only if the population is too small for the mode, or nobody is left
TFail ==
  /\ IsEvent("fail") /\ ~Idle
  /\ \/ first /\ run.it = run.off /\ chi = << >> /\ TooSmall
     \/ first /\ chi = << >> /\ late = << >>
  /\ run' = [off |-> 0, n |-> 0, it |-> 0]
  /\ UNCHANGED <<evoVars, late, nev, temp, stat>>

Abs(x) == IF x < 0 THEN -x ELSE x
Root(v) == CHOOSE b \in 0..400 : b * b >= v /\ (b = 0 \/ (b - 1) * (b - 1) < v)
TEnd ==
  /\ IsEvent("end") /\ Idle
  /\ Abs(stat.acc - stat.exp) <= 1000 * (Root((36 * (stat.var \div 1000)) + 1) + 2)
  /\ UNCHANGED <<evoVars, run, late, nev, temp, stat>>

Next == TStart \/ TEval \/ TCyc \/ TRet \/ TFail \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
