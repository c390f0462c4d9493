------------------------ MODULE BoundedBufferTrace -------------------------
EXTENDS TraceKit, BoundedBuffer

Threads == 0..7
vars == <<kitVars, bbVars>>

Init == KitInit /\ InitBB(Traces[tid].cfg.cap, Threads)

TCall == IsEvent("call") /\ Call(Cur.t, Cur.op, Cur.m, Cur.v)
\* a timed call that failed must have used up its time
TRet == IsEvent("ret") /\ Return(Cur.t, Cur.ok, Cur.v)
        /\ (~Cur.ok /\ pend[Cur.t].mode = "wait" => Cur.el >= Cur.to)
\* linearisation steps are only needed right before something returns or stands still
Lin == /\ More /\ Cur.e \in {"ret", "stuck", "end"} /\ Silent
       /\ \E t \in Threads : Put(t) \/ Get(t) \/ Refuse(t) \/ Look(t)
TStuck == IsEvent("stuck") /\ Stuck(Threads) /\ UNCHANGED bbVars
\* quiescent end: what is left inside is exactly what the driver finds there
TEnd == IsEvent("end") /\ (\A t \in Threads : ~Busy(t)) /\ q = Cur.rest /\ UNCHANGED bbVars

Next == TCall \/ TRet \/ Lin \/ TStuck \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
