---------------------------- MODULE ServiceTrace ----------------------------
(* Conformance of GSerialConsumerT / GStdThreadConsumerT (with GWorkerT, GBrokerT). *)
EXTENDS TraceKit, Service
vars == <<kitVars, svVars>>
Init == KitInit /\ InitSv(Traces[tid].cfg.nw)
TEnrol == IsEvent("enrol") /\ Enrol(Cur.p) /\ Cur.full = Cfg.full
TSubmit == IsEvent("submit") /\ Submit(Cur.p, Cur.k, Cur.plan)
TStart == IsEvent("start") /\ Start(Cur.w, Cur.k)
TFin == IsEvent("fin") /\ Finish(Cur.w, Cur.k)
\* a collected item shows its own outcome: result and status
Outcome == IF plan[Cur.k] = 0 THEN Cur.ps = "PROCESSED" /\ Cur.res = Cur.k * 7
           ELSE Cur.ps = (IF plan[Cur.k] = 1 THEN "ERROR_FLAGGED" ELSE "EXCEPTION_CAUGHT") /\ Cur.res = -7
TCollect == IsEvent("collect") /\ Collect(Cur.p, Cur.k) /\ Outcome
TLeave == IsEvent("leave") /\ Leave(Cur.p)
TStop == IsEvent("stop") /\ StopCall
TStopped == IsEvent("stopped") /\ Cur.threads = 0 /\ StopReturn
TDrained == IsEvent("drained") /\ Drained(Cur.p) /\ UNCHANGED svVars
TEnd == IsEvent("end") /\ UNCHANGED svVars
Next == TEnrol \/ TSubmit \/ TStart \/ TFin \/ TCollect \/ TLeave \/ TStop \/ TStopped \/ TDrained \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
