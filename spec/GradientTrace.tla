---------------------------- MODULE GradientTrace ---------------------------
(* Trace specification for drivers/d_grad.cpp.  Positions in units of 1/10000. *)
EXTENDS Gradient, BestLists, TraceKit
VARIABLES run,    \* the events of a run are being consumed: [off, n, it]
          F,      \* fitness of all individuals evaluated so far
          now,    \* positions of those evaluated in this iteration
          bad,    \* an evaluation of this iteration has failed
          st,     \* population at the start of the run
          pop,    \* population after the last iteration: [id, f, v, n]
          glob, best
vars == <<run, F, now, bad, st, pop, glob, best, tid, l>>
NoRun == [off |-> 0, n |-> 0, it |-> 0]
Idle == run.n = 0
None == 1000000000
Unknown == 5000000
Lo == -80000
Hi == 80000
ns == Cfg.ns
Total == ns * (Cfg.dims + 1)
First == run.it = run.off
Init == KitInit /\ run = NoRun /\ F = << >> /\ now = << >> /\ bad = FALSE /\ st = << >> /\ pop = << >> /\ glob = {} /\ best = None

\* invalid step sizes are refused and change nothing
TBad == IsEvent("bad") /\ Idle /\ Cur.threw /\ Cur.same /\ UNCHANGED <<run, F, now, bad, st, pop, glob, best>>
TStart ==
  /\ IsEvent("start") /\ Idle
  /\ LET clean == {i \in DOMAIN Cur.pop : Cur.pop[i].f # Unknown} IN
     /\ \A i \in clean : Cur.pop[i].id \in DOMAIN F /\ F[Cur.pop[i].id] = Cur.pop[i].f
     /\ (pop # << >> => Cur.pop = pop)
     /\ glob' = glob \cup {Cur.pop[i].id : i \in clean}
  /\ st' = Cur.pop /\ run' = [off |-> Cur.off, n |-> Cur.n, it |-> Cur.off] /\ now' = << >> /\ bad' = FALSE /\ best' = None
  /\ UNCHANGED <<F, pop>>
TEval ==
  /\ IsEvent("eval") /\ Cur.id \notin DOMAIN F
  /\ (~Idle => Cardinality(DOMAIN now) < Total)
  /\ bad' = (bad \/ Cur.thrown)
  /\ (IF Cur.thrown THEN UNCHANGED <<F, now>>
      ELSE F' = F @@ (Cur.id :> Cur.f) /\ now' = now @@ (Cur.id :> Cur.v))
  /\ UNCHANGED <<run, st, pop, glob, best>>

Near(x, y) == x - y <= 4 /\ y - x <= 4
Child(i, j) == ns + ((i - 1) * Cfg.dims) + j
\* the starting points of this iteration
Started(i, v) ==
  IF First THEN IF i <= Len(st) THEN v = st[i].v ELSE \A d \in DOMAIN v : v[d] >= Lo /\ v[d] <= Hi
  ELSE \A d \in DOMAIN v :
         IF d > Cfg.dims THEN v[d] = pop[i].v[d]
         ELSE LET c == pop[Child(i, d)] IN
              Near(v[d], Stepped(pop[i].v[d] - (Sign(pop[i].v[d], c.v[d]) * Cfg.q * 10 * (c.f - pop[i].f)), Lo, Hi, Cfg.free))
Probed(v, j, w) == \A d \in DOMAIN v : IF d = j THEN \E p \in ProbesOf(v[d], Cfg.fs, Lo, Hi, Cfg.free) \cup ProbesOf(v[d] + 1, Cfg.fs, Lo, Hi, Cfg.free) : Near(w[d], p) ELSE w[d] = v[d]
TCyc ==
  /\ IsEvent("cyc") /\ ~Idle /\ Cur.it = run.it /\ Cur.vals /\ ~bad
  /\ Len(Cur.pop) = Total /\ Cardinality(DOMAIN now) = Total /\ {Cur.pop[i].id : i \in 1..Total} = DOMAIN now
  /\ \A i \in 1..Total : Cur.pop[i].v = now[Cur.pop[i].id] /\ Cur.pop[i].f = F[Cur.pop[i].id]
  /\ \A i \in 1..ns : /\ Started(i, Cur.pop[i].v)
                      /\ Cur.pop[i].n = (IF First THEN IF i <= Len(st) THEN st[i].n ELSE Cur.pop[i].n ELSE pop[i].n)
                      /\ \A j \in 1..Cfg.dims : Probed(Cur.pop[i].v, j, Cur.pop[Child(i, j)].v) /\ Cur.pop[Child(i, j)].n = Cur.pop[i].n
  /\ \E g \in {IdsOf(Cur.glob)}, it \in {IdsOf(Cur.iter)}, S \in {DOMAIN now} :
       /\ BestOf(F, it, S, 1000) /\ BestOf(F, g, glob \cup S, Cfg.nrec) /\ glob' = ElemsOf(g)
       /\ Truthful(F, Cur.glob) /\ Truthful(F, Cur.iter)
       /\ \A x \in DOMAIN F : x \in S \cup glob => F[x] >= F[g[1]]
       /\ Cur.kb = F[g[1]] /\ Cur.kc = MinOf(F, {Cur.pop[i].id : i \in 1..ns})
  /\ pop' = Cur.pop /\ now' = << >> /\ run' = [run EXCEPT !.it = @ + 1]
  /\ UNCHANGED <<F, bad, st, best>>
TRet == /\ IsEvent("ret") /\ ~Idle /\ run.it = run.off + run.n /\ Cur.vals /\ ElemsOf(IdsOf(Cur.glob)) = glob /\ Truthful(F, Cur.glob)
        /\ run' = NoRun /\ UNCHANGED <<F, now, bad, st, pop, glob, best>>
\* an incomplete set of results ends the run instead of leading to a wrong step
TFail == /\ IsEvent("fail") /\ ~Idle /\ (bad \/ (Cfg.flaky /\ Cardinality(DOMAIN now) < Total))
         /\ run' = NoRun /\ UNCHANGED <<F, now, bad, st, pop, glob, best>>
TEnd == IsEvent("end") /\ Idle /\ UNCHANGED <<run, F, now, bad, st, pop, glob, best>>
Next == TBad \/ TStart \/ TEval \/ TCyc \/ TRet \/ TFail \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
