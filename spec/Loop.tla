-------------------------------- MODULE Loop --------------------------------
(* The loop common to all optimization algorithms: numbering of iterations,
   improvements and stalls, halting, and the best individuals seen.  A cycle is
   described by the population it leaves (seq of [id, raw, tra]) and by the best
   fitness <<raw, tra>> it reports.  Fitness values are ranks. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES max,      \* TRUE: higher is better
          cf,       \* settings of the current run
          phase,    \* "out", "in" (a run is under way, before or after a cycle), "over" (halted)
          iter, off,
          best,     \* <<raw, tra>> best since the start of the run
          cur,      \* <<raw, tra>> of the last cycle
          stall,
          start, now,  \* time
          sig, touched,
          cycles,
          clean,    \* evaluated individuals in the population before a run
          glob,     \* the remembered best individuals
          pop       \* individuals of the last cycle
lVars == <<max, cf, phase, iter, off, best, cur, stall, start, now, sig, touched, cycles, clean, glob, pop>>
Worst == IF max THEN -1000000 ELSE 1000000
Better(a, b) == IF max THEN a > b ELSE a < b
InitL(m) == /\ max = m /\ phase = "out" /\ iter = 0 /\ off = 0 /\ stall = 0 /\ start = 0 /\ now = 0 /\ sig = FALSE /\ touched = FALSE
            /\ best = <<0, 0>> /\ cur = <<0, 0>> /\ cycles = 0 /\ clean = {} /\ glob = {} /\ pop = <<>>
            /\ cf = [off |-> 0]
\* G may be what is kept of the individuals S if the best n of them are to be remembered (equal ones in any selection)
Kept(S, G, n) == /\ G \subseteq S
                 /\ Cardinality(G) = (IF Cardinality(S) < n THEN Cardinality(S) ELSE n)
                 /\ \A s \in S \ G : \A t \in G : ~Better(s.tra, t.tra)
RangeOf(s) == {s[k] : k \in DOMAIN s}
Begin(c, o) == /\ phase = "out" /\ phase' = "in" /\ cf' = c /\ iter' = o /\ off' = o /\ best' = <<Worst, Worst>> /\ cur' = <<Worst, Worst>>
               /\ stall' = 0 /\ start' = 0 /\ now' = 0 /\ cycles' = 0 /\ touched' = FALSE /\ pop' = <<>>
               /\ UNCHANGED <<max, sig, clean, glob>>
Cycle(p, b, t, sg, tc) ==
  /\ phase = "in" /\ cycles' = cycles + 1 /\ now' = t /\ t >= now /\ cur' = b /\ pop' = p
  /\ sig' = (sig \/ sg) /\ touched' = (touched \/ tc)
  /\ clean' = RangeOf(p)
  /\ (IF Better(b[2], best[2]) THEN best' = b /\ stall' = 0 ELSE best' = best /\ stall' = stall + 1)
  /\ phase' = "after" /\ UNCHANGED <<max, cf, iter, off, start, glob>>
\* what ends a run, after the iteration with number i - 1
MinDone(i) == i > cf.minI /\ now > cf.mn
Criterion(i) == \/ cf.maxI # 0 /\ i >= cf.maxI
                \/ cf.ms # 0 /\ stall > cf.ms
                \/ cf.mt # 0 /\ now >= cf.mt
                \/ cf.hq /\ Better(best[1], cf.q)
                \/ cf.custom >= 0 /\ cycles >= cf.custom
Halt(i) == sig \/ (cf.tf /\ touched) \/ (MinDone(i) /\ Criterion(i))
\* remembering the best ones: those already known when a run begins, later those of each cycle
Remember(G) == Kept(glob \cup clean, G, cf.nrec) /\ glob' = G
Step(G) == /\ phase = "after" /\ Remember(G) /\ iter' = iter + 1 /\ phase' = (IF Halt(iter + 1) THEN "over" ELSE "in")
        /\ UNCHANGED <<max, cf, off, best, cur, stall, start, now, sig, touched, cycles, clean, pop>>
End == phase = "over" /\ phase' = "out" /\ UNCHANGED <<max, cf, iter, off, best, cur, stall, start, now, sig, touched, cycles, clean, glob, pop>>
Known(G) == phase = "in" /\ cycles = 0 /\ Remember(G) /\ UNCHANGED <<max, cf, phase, iter, off, best, cur, stall, start, now, sig, touched, cycles, clean, pop>>
Reset == phase = "out" /\ clean' = {} /\ glob' = {} /\ iter' = 0 /\ stall' = 0 /\ UNCHANGED <<max, cf, phase, off, best, cur, start, now, sig, touched, cycles, pop>>
=============================================================================
