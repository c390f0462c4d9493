----------------------------- MODULE LoopTrace ------------------------------
(* Conformance of G_OptimizationAlgorithm_Base driven by a scripted algorithm. *)
EXTENDS TraceKit, Loop
VARIABLES maxI, minI, nxt,   \* limits set; nxt: which report is due ("" none)
          stalled            \* stalls were acted on in this iteration
vars == <<kitVars, lVars, maxI, minI, nxt, stalled>>
Init == KitInit /\ InitL(Traces[tid].cfg.max) /\ maxI = 1000 /\ minI = 0 /\ nxt = ""  /\ stalled = FALSE
Ind(x) == [id |-> x[1], raw |-> x[2], tra |-> x[3]]
Inds(s) == [k \in DOMAIN s |-> Ind(s[k])]
GlobSet == {Ind(Cur.glob[k]) : k \in DOMAIN Cur.glob}
TPre == IsEvent("pre") /\ phase = "out" /\ clean' = clean \cup {[id |-> Cur.id, raw |-> Cur.raw, tra |-> Cur.tra]} /\ UNCHANGED <<max, cf, phase, iter, off, best, cur, stall, start, now, sig, touched, cycles, glob, pop, maxI, minI, nxt, stalled>>
\* contradictory limits are refused, others are taken over
TSetMax == /\ IsEvent("setmax") /\ Cur.thrown = (Cur.n > 0 /\ Cur.n <= minI)
           /\ maxI' = (IF Cur.thrown THEN maxI ELSE Cur.n) /\ Cur.max = maxI' /\ Cur.min = minI /\ UNCHANGED <<lVars, minI, nxt, stalled>>
TSetMin == /\ IsEvent("setmin") /\ Cur.thrown = (maxI > 0 /\ maxI <= Cur.n)
           /\ minI' = (IF Cur.thrown THEN minI ELSE Cur.n) /\ Cur.min = minI' /\ Cur.max = maxI /\ UNCHANGED <<lVars, maxI, nxt, stalled>>
Reporting == cf.mon /\ cf.rep # 0
TRun == /\ IsEvent("run") /\ Begin([maxI |-> maxI, minI |-> minI] @@ Cur, Cur.off)
        /\ nxt' = (IF Cur.mon /\ Cur.rep # 0 THEN "init" ELSE "start") /\ UNCHANGED <<maxI, minI, stalled>>
TOmInit == /\ IsEvent("om") /\ Cur.m = "init" /\ nxt = "init" /\ Cur.it = iter /\ nxt' = "start" /\ UNCHANGED <<lVars, maxI, minI, stalled>>
TInit == IsEvent("init") /\ nxt = "start" /\ nxt' = "" /\ Known(GlobSet) /\ UNCHANGED <<maxI, minI, stalled>>
TCycle == /\ IsEvent("cycle") /\ nxt = "" /\ Cycle(Inds(Cur.pop), <<Cur.raw, Cur.tra>>, Cur.t, Cur.sig, Cur.touch)
          /\ Cur.it = iter /\ Cur.mk /\ Cur.first = (iter = off)
          /\ nxt' = "act" /\ stalled' = FALSE /\ UNCHANGED <<maxI, minI>>
ActDue == cf.sth # 0 /\ stall > cf.sth
OmDue == Reporting /\ iter % cf.rep = 0
TStalled == IsEvent("stalled") /\ nxt = "act" /\ ActDue /\ ~stalled /\ Cur.it = iter /\ Cur.stall = stall /\ stalled' = TRUE /\ UNCHANGED <<lVars, maxI, minI, nxt>>
Sorted(s) == \A k \in 1..(Len(s) - 1) : ~Better(s[k + 1][3], s[k][3])
Distinct(s) == \A j, k \in DOMAIN s : j # k => s[j][1] # s[k][1]
\* a list of best individuals is sorted and without repetition, and it is the one remembered
GlobOK(s) == Sorted(s) /\ Distinct(s)
IterOK(s) == Sorted(s) /\ Distinct(s) /\ {Ind(s[k]) : k \in DOMAIN s} = RangeOf(pop)
BestOK == Cur.ktra = Cur.glob[1][3] /\ Cur.kraw = Cur.glob[1][2]
OmOK == /\  Cur.stall = stall /\ Cur.marked /\ BestOK /\ Cur.ctra = cur[2]
        /\ IterOK(Cur.iter) /\ Cur.best[1] = Cur.glob[1] /\ Cur.best[2] = Cur.iter[1]
TOmProc == /\ IsEvent("om") /\ Cur.m = "proc" /\ nxt = "act" /\ (ActDue => stalled) /\ OmDue /\ Cur.it = iter /\ ~Cur.halted /\ OmOK /\ Kept(glob \cup clean, GlobSet, cf.nrec) /\ nxt' = "step" /\ UNCHANGED <<lVars, maxI, minI, stalled>>
\* counting on and halting show in the next event
NextGlob == IF Has(Cur, "glob") THEN GlobSet ELSE {}
SStep == /\ More /\ Cur.e \in {"cycle", "fin"} /\ nxt \in {"act", "step"} /\ (nxt = "act" => ~OmDue /\ (ActDue => stalled))
         /\ Step(NextGlob) /\ nxt' = "" /\ Silent /\ UNCHANGED <<maxI, minI, stalled>>
TFin == IsEvent("fin") /\ phase = "over" /\ nxt = "" /\ nxt' = (IF Reporting THEN "end" ELSE "ret") /\ UNCHANGED <<lVars, maxI, minI, stalled>>
TOmEnd == IsEvent("om") /\ Cur.m = "end" /\ nxt = "end" /\ Cur.it = iter /\ Cur.halted /\ OmOK /\ nxt' = "ret" /\ UNCHANGED <<lVars, maxI, minI, stalled>>
TRet == /\ IsEvent("ret") /\ nxt = "ret" /\ End /\ Cur.it = iter /\ Cur.start = off /\ Cur.stall = stall /\ Cur.halted /\ BestOK /\ nxt' = "" /\ UNCHANGED <<maxI, minI, stalled>>
TReset == IsEvent("reset") /\ Reset /\ Cur.it = 0 /\ Cur.n = 0 /\ UNCHANGED <<maxI, minI, nxt, stalled>>
TEnd == IsEvent("end") /\ UNCHANGED <<lVars, maxI, minI, nxt, stalled>>
GlobHere == Has(Cur, "glob") => GlobOK(Cur.glob)
\* the list shown is the one remembered, except in a report, which comes before a run counts on
SameGlob == (Has(Cur, "glob") /\ ~(Cur.e = "om" /\ Cur.m = "proc") /\ Cur.e # "init") => GlobSet = glob
Next == (TPre \/ TSetMax \/ TSetMin \/ TRun \/ TOmInit \/ TInit \/ TCycle \/ TStalled \/ TOmProc \/ SStep \/ TFin \/ TOmEnd \/ TRet \/ TReset \/ TEnd) /\ (More /\ l' # l => GlobHere /\ SameGlob)
Spec == Init /\ [][Next]_vars
=============================================================================
