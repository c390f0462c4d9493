--------------------------- MODULE ThreadPoolTrace --------------------------
EXTENDS TraceKit, ThreadPool
Callers == 0..9
vars == <<kitVars, tpVars>>
Eff(m) == IF m = 0 THEN Cfg.dflt ELSE m
Init == KitInit /\ InitTP(LET c == Traces[tid].cfg IN IF c.n = 0 THEN c.dflt ELSE c.n, Callers)
TSub == IsEvent("sub") /\ Submit(Cur.k, Cur.o)
TAcc == IsEvent("acc") /\ Accepted(Cur.k)
TStart == IsEvent("start") /\ Start(Cur.k)
TFin == IsEvent("fin") /\ Finish(Cur.k)
TGot == IsEvent("got") /\ Got(Cur.k, Cur.o)
TWait == IsEvent("wait") /\ WaitCall(Cur.t)
TWaited == IsEvent("waited") /\ WaitRet(Cur.t)
TRes == IsEvent("resize") /\ ResizeCall(Cur.t, Eff(Cur.n))
TResd == IsEvent("resized") /\ ResizeRet(Cur.t)
TDes == IsEvent("destroy") /\ WaitCall(Cur.t)
TDesd == IsEvent("destroyed") /\ Destroyed(Cur.t)
Quiet == \A c \in Callers : rsz[c] = -1
TEnd == IsEvent("end") /\ gone /\ UNCHANGED tpVars
\* number of threads told to the user, when nothing is going on and threads have been started
TNum == IsEvent("num") /\ Quiet /\ Cur.n = n /\ UNCHANGED tpVars
Silently == /\ More /\ Cur.e \in {"start", "resized", "num"} /\ Silent
            /\ \E c \in Callers : ResizeEffect(c)
Next == TSub \/ TAcc \/ TStart \/ TFin \/ TGot \/ TWait \/ TWaited \/ TRes \/ TResd \/ TDes \/ TDesd \/ TNum \/ TEnd \/ Silently
Spec == Init /\ [][Next]_vars
=============================================================================
