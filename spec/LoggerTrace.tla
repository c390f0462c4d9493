---------------------------- MODULE LoggerTrace -----------------------------
(* Trace specification for drivers/d_log.cpp.  What the places contain in the end is known from the
   start (Cfg.final); each message takes effect at one moment between its call and its return. *)
EXTENDS Logger, TraceKit
VARIABLES conf, pend, sinks, alive
vars == <<conf, pend, sinks, alive, tid, l>>
Names == DOMAIN Cfg.final
NoMsg == [id |-> 0 - 1, how |-> "", src |-> "", done |-> FALSE]
Init == KitInit /\ conf = [targets |-> << >>, dflt |-> "con"] /\ pend = [t \in 1..3 |-> NoMsg] /\ sinks = [s \in Names |-> << >>] /\ alive = 0
Quiet == \A t \in 1..3 : pend[t] = NoMsg
TAdd == IsEvent("add") /\ Quiet /\ conf' = [conf EXCEPT !.targets = Append(@, Cur.s)] /\ UNCHANGED <<pend, sinks, alive>>
TReset == IsEvent("reset") /\ Quiet /\ conf' = [conf EXCEPT !.targets = << >>] /\ UNCHANGED <<pend, sinks, alive>>
TDflt == IsEvent("dflt") /\ Quiet /\ conf' = [conf EXCEPT !.dflt = Cur.s] /\ UNCHANGED <<pend, sinks, alive>>
TNull == IsEvent("null") /\ Quiet /\ Cur.threw /\ UNCHANGED <<conf, pend, sinks, alive>>
THas == IsEvent("has") /\ Quiet /\ Cur.b = (conf.targets # << >>) /\ UNCHANGED <<conf, pend, sinks, alive>>
TPhase == IsEvent("phase") /\ Quiet /\ UNCHANGED <<conf, pend, sinks, alive>>
TCall == /\ IsEvent("call") /\ (pend[Cur.t] = NoMsg /\ pend' = [pend EXCEPT ![Cur.t] = [id |-> Cur.m, how |-> Cur.how, src |-> Cur.src, done |-> FALSE]])
         /\ UNCHANGED <<conf, sinks, alive>>
Effect(t) == /\ pend[t] # NoMsg /\ ~pend[t].done
             /\ sinks' = Deliver(sinks, Dest(conf, pend[t]), pend[t].id)
             /\ (\A s \in Names : IsPre(sinks'[s], Cfg.final[s]))
             /\ pend' = [pend EXCEPT ![t].done = TRUE] /\ UNCHANGED <<conf, alive>> /\ Silent
TRet == /\ IsEvent("ret") /\ (pend[Cur.t].id = Cur.m /\ pend[Cur.t].done /\ Cur.threw = (pend[Cur.t].how = "exc") /\ (Cur.threw => Cur.whole))
        /\ pend' = [pend EXCEPT ![Cur.t] = NoMsg] /\ UNCHANGED <<conf, sinks, alive>>
\* a singleton is made once, by whoever asks first, and everybody gets that object
TSingle == /\ IsEvent("single") /\ Quiet
           /\ (\E now \in {IF alive = 0 THEN Cur.was + 1 ELSE alive} :
                 /\ Cur.made = (IF alive = 0 THEN 1 ELSE 0) /\ (\A i \in DOMAIN Cur.got : Cur.got[i] = now) /\ alive' = now)
           /\ UNCHANGED <<conf, pend, sinks>>
TDrop == IsEvent("drop") /\ Quiet /\ alive' = 0 /\ UNCHANGED <<conf, pend, sinks>>
TEnd == IsEvent("end") /\ Quiet /\ sinks = Cfg.final /\ UNCHANGED <<conf, pend, sinks, alive>>
Next == TAdd \/ TReset \/ TDflt \/ TNull \/ THas \/ TPhase \/ TCall \/ (\E t \in 1..3 : More /\ Effect(t)) \/ TRet \/ TSingle \/ TDrop \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
