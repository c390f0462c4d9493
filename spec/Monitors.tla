---- MODULE Monitors ----
(* The monitors that write the history of an optimization run to files.  An algorithm reports the start of a
   run, iterations, and the end of the run; each monitor then has to have added exactly its share to its file.
   pars: <<name, type>> of the parameters, in order; logs: the settings of the monitors. *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC
VARIABLES conf,     \* settings: pars, logs, ncrit, max (direction); never changes
          here,     \* per monitor: its file exists
          baks,     \* per monitor: number of earlier files that were put aside
          head,     \* per monitor: the header has been written in this run
          hist,     \* per monitor: what has been recorded in this run, for output at its end
          fits,     \* per monitor: fitness of the best individual at the recorded iterations
          lines,    \* per monitor: what the last report has added to the file
          plots     \* per monitor: the plots written by the last report
mvars == <<conf, here, baks, head, hist, fits, lines, plots>>

pars == conf.pars
logs == conf.logs
NCrit == conf.ncrit
Maxi == conf.max
NL == 1..Len(logs)
Types == <<"double", "int32", "bool">>
\* columns: by type, then by name, then in the order of the parameters
Columns == FlattenSeq([t \in 1..3 |-> FlattenSeq([k \in 1..10 |->
              SelectSeq([i \in 1..Len(pars) |-> i], LAMBDA i : pars[i] = <<k - 1, Types[t]>>)])])
\* position of parameter i among those of its type with the same name, from 0
PosOf(i) == Cardinality({j \in 1..(i - 1) : pars[j] = pars[i]})
Line(ts, commas) == [k |-> "v", t |-> ts, comma |-> commas /\ Len(ts) > 1, plain |-> ~commas /\ Len(ts) > 1]
Comment(s) == [k |-> "c", t |-> <<s>>, comma |-> FALSE, plain |-> FALSE]
NCols == Len(Columns)

(* ---- all solutions ---- *)
SepLines(l, what) == IF l.sep THEN <<Comment("#"), Comment("# -----------------------------------------------------------------------------"), Comment("# " \o what \o ":"), Comment("#")>> ELSE <<>>
Header(l) ==
  LET n == [c \in 1..NCols |-> "#p" \o ToString(pars[Columns[c]][1]) \o "_" \o ToString(PosOf(Columns[c]))] \o [c \in 1..NCrit |-> "#Fitness_" \o ToString(c - 1)] \o (IF l.val THEN <<"#validity">> ELSE <<>>)
      t == [c \in 1..NCols |-> "#" \o pars[Columns[c]][2]] \o [c \in 1..NCrit |-> "#double"] \o (IF l.val THEN <<"#bool">> ELSE <<>>)
  IN <<Line(n, l.commas), Line(t, l.commas)>>
Values(l, p) == Line([c \in 1..NCols |-> p.v[Columns[c]]]
                     \o (IF p.done THEN (IF l.raw THEN p.r ELSE p.t) ELSE [c \in 1..NCrit |-> "#dirty"])
                     \o (IF l.val THEN (IF p.ok THEN <<"1000">> ELSE <<"0">>) ELSE <<>>), l.commas)
GoodEnough(l, p) == l.bound = <<>> \/ \A c \in 1..NCrit : (IF Maxi THEN p.k[c] >= l.bound[c] ELSE p.k[c] <= l.bound[c])
Shown(l, pop) == SelectSeq(pop, LAMBDA p : GoodEnough(l, p))
SolLines(l, done, what, pop) ==
  LET s == Shown(l, pop) IN SepLines(l, what) \o (IF l.hdr /\ ~done /\ s # <<>> THEN Header(l) ELSE <<>>) \o [i \in 1..Len(s) |-> Values(l, s[i])]

(* r, t: raw and transformed fitness; r6, t6: the same with six significant digits; k: raw fitness as a number *)
(* ---- fitness of all individuals, one line per iteration ---- *)
ResLine(l, pop) == Line(FlattenSeq([i \in 1..Len(pop) |-> IF l.raw THEN pop[i].r6 ELSE pop[i].t6]), l.commas)

(* ---- progress plots ---- *)
Point(l, p) == [x \in 1..Len(l.vars) |-> p.v[l.vars[x]]] \o <<IF l.raw THEN p.r6[1] ELSE p.t6[1]>>
Plotted(l, p) == (~l.vo \/ p.ok) /\ (~l.obs \/ \A x \in 1..Len(l.vars) : l.lo[x] <= p.m[l.vars[x]] /\ p.m[l.vars[x]] <= l.hi[x])

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Str(n) == ToString(1000 * n)
NadPlots(l, h, f) ==
  LET first == IF l.best THEN [dim |-> <<Len(h)>>, d |-> [i \in 1..Len(h) |-> <<Str(h[i][1]), Str(h[i][2])>>]]
               ELSE [dim |-> <<Len(f), 1 + MaxOf({0} \union {h[i][2] : i \in 1..Len(h)})>>, d |-> [i \in 1..Len(h) |-> <<Str(h[i][1]), Str(h[i][2])>>]]
  IN <<first, [dim |-> <<Len(f)>>, d |-> f]>>

MInit == /\ here = [i \in NL |-> logs[i].old] /\ baks = [i \in NL |-> 0] /\ head = [i \in NL |-> FALSE]
         /\ hist = [i \in NL |-> <<>>] /\ fits = [i \in NL |-> <<>>] /\ lines = [i \in NL |-> <<>>] /\ plots = [i \in NL |-> <<>>]

\* a run starts: files of earlier runs are put aside; recordings start anew
ReportInit(pop) ==
  LET shown(i) == logs[i].kind = "sol" /\ logs[i].init
      aside(i) == here[i] /\ logs[i].kind # "prog"
  IN /\ baks' = [i \in NL |-> baks[i] + (IF aside(i) THEN 1 ELSE 0)]
     /\ here' = [i \in NL |-> (here[i] /\ ~aside(i)) \/ shown(i)]
     /\ lines' = [i \in NL |-> IF shown(i) THEN SolLines(logs[i], FALSE, "Initial population", pop) ELSE <<>>]
     /\ head' = [i \in NL |-> shown(i) /\ Shown(logs[i], pop) # <<>>]
     /\ hist' = [i \in NL |-> <<>>] /\ fits' = [i \in NL |-> <<>>] /\ plots' = [i \in NL |-> <<>>] /\ UNCHANGED conf

ReportIteration(it, pop, best) ==
  /\ lines' = [i \in NL |-> LET l == logs[i] IN
                 CASE l.kind = "sol" -> SolLines(l, head[i], "At end of iteration " \o ToString(it), pop)
                   [] l.kind = "res" -> <<ResLine(l, pop)>>
                   [] l.kind = "time" -> [p \in 1..Len(pop) |-> Line(<<Str(it), "T", "T", "T">>, TRUE)]
                   [] OTHER -> <<>>]
  /\ here' = [i \in NL |-> here[i] \/ logs[i].kind \in {"sol", "res", "time"}]
  /\ head' = [i \in NL |-> head[i] \/ (logs[i].kind = "sol" /\ Shown(logs[i], pop) # <<>>)]
  /\ hist' = [i \in NL |-> LET l == logs[i] IN
                 hist[i] \o (CASE l.kind = "nad" -> (IF l.best THEN <<<<it, best.nad>>>> ELSE [p \in 1..Len(pop) |-> <<it, pop[p].nad>>])
                               [] l.kind = "prog" -> (LET s == SelectSeq(IF l.best THEN <<best>> ELSE pop, LAMBDA p : Plotted(l, p)) IN [p \in 1..Len(s) |-> Point(l, s[p])])
                               [] OTHER -> <<>>)]
  /\ fits' = [i \in NL |-> IF logs[i].kind = "nad" THEN Append(fits[i], <<Str(it), best.r6[1]>>) ELSE <<>>]
  /\ plots' = [i \in NL |-> <<>>]
  /\ UNCHANGED <<conf, baks>>

ReportEnd ==
  /\ plots' = [i \in NL |-> LET l == logs[i] IN
                 CASE l.kind = "nad" -> NadPlots(l, hist[i], fits[i])
                   [] l.kind = "prog" -> <<[dim |-> <<Len(hist[i])>>, d |-> hist[i]]>>
                   [] OTHER -> <<>>]
  /\ here' = [i \in NL |-> here[i] \/ logs[i].kind \in {"nad", "prog"}]
  /\ lines' = [i \in NL |-> <<>>]
  /\ UNCHANGED <<conf, baks, head, hist, fits>>
====
