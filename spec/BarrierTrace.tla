---------------------------- MODULE BarrierTrace ----------------------------
EXTENDS TraceKit, Barrier
Threads == 0..7
vars == <<kitVars, bVars>>
Init == KitInit /\ InitB(Traces[tid].cfg.n, Threads)
TEnter == IsEvent("enter") /\ Enter(Cur.t)
TLeave == IsEvent("leave") /\ Leave(Cur.t, Threads)
TEnd == IsEvent("end") /\ (\A t \in Part(Threads) : left[t] = Cfg.rounds) /\ UNCHANGED bVars
Next == TEnter \/ TLeave \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
