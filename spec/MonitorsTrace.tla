---- MODULE MonitorsTrace ----
(* Trace specification for drivers/d_mon.cpp: an observer registered before the monitors tells what is
   reported to them, one registered after them what is in the files then. *)
EXTENDS Monitors, TraceKit
VARIABLES busy, off
vars == <<mvars, busy, off, tid, l>>
Init == /\ KitInit /\ conf = [pars |-> Cfg.pars, logs |-> Cfg.logs, ncrit |-> Cfg.ncrit, max |-> Cfg.max] /\ MInit /\ busy = FALSE /\ off = "none"
TStart == IsEvent("start") /\ (~busy /\ off = "none" /\ off' = "start") /\ UNCHANGED <<mvars, busy>>
TInfo == /\ IsEvent("info") /\ (~busy /\ busy' = TRUE)
         /\ (CASE Cur.m = "init" -> off = "start" /\ off' = "run" /\ ReportInit(Cur.pop)
               [] Cur.m = "proc" -> off = "run" /\ off' = off /\ ReportIteration(Cur.it, Cur.pop, Cur.best[1])
               [] Cur.m = "end" -> off = "run" /\ off' = "none" /\ ReportEnd)
\* one-dimensional progress plots are sorted; equal abscissae may be in any order
HowOften(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
SamePlots(lg, want, got) ==
  /\ Len(want) = Len(got)
  /\ \A p \in 1..Len(got) :
       /\ ~got[p].bad /\ got[p].dim = want[p].dim
       /\ (IF lg.kind = "prog" /\ Len(lg.vars) = 1
           THEN got[p].sorted /\ Len(got[p].d) = Len(want[p].d) /\ (\A i \in 1..Len(got[p].d) : HowOften(got[p].d, got[p].d[i]) = HowOften(want[p].d, got[p].d[i]))
           ELSE got[p].d = want[p].d)
TFiles == /\ IsEvent("files") /\ (busy /\ busy' = FALSE) /\ Len(Cur.f) = Len(logs)
          /\ (\A i \in NL : Cur.f[i].there = here[i] /\ Cur.f[i].baks = baks[i] /\ Cur.f[i].lines = lines[i] /\ SamePlots(logs[i], plots[i], Cur.f[i].plots))
          /\ UNCHANGED <<mvars, off>>
TDone == IsEvent("done") /\ (~busy /\ off = "none") /\ UNCHANGED <<mvars, busy, off>>
Next == TStart \/ TInfo \/ TFiles \/ TDone
Spec == Init /\ [][Next]_vars
====
