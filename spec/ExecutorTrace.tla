--------------------------- MODULE ExecutorTrace ----------------------------
(* Conformance of GSerialExecutorT, GMTExecutorT and GBrokerExecutorT (with GSerialConsumerT / GStdThreadConsumerT). *)
EXTENDS TraceKit, Executor
vars == <<kitVars, xVars>>
Init == KitInit /\ InitX(IF Traces[tid].cfg.kind = 0 THEN 1 ELSE Traces[tid].cfg.nthr)
TCall == IsEvent("call") /\ Call(Cur.items)
TExec == IsEvent("exec") /\ Exec(Cur.id)
TFin == IsEvent("fin") /\ Fin(Cur.id)
TRet == /\ IsEvent("ret") /\ Return
        /\ Cur.items = Result /\ Cur.complete /\ Cur.err = (Failed # {})
        /\ Cur.nnr = 0 /\ Cur.ner = Cardinality(Failed) /\ Cur.nold = 0 /\ Cur.old = <<>> /\ Cur.nrl = Cardinality(Ids(batch, {"DO_PROCESS"}))
TThrown == IsEvent("thrown") /\ Refuse
TEnd == IsEvent("end") /\ UNCHANGED xVars
Next == TCall \/ TExec \/ TFin \/ TRet \/ TThrown \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
