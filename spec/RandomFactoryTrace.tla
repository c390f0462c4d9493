------------------------- MODULE RandomFactoryTrace -------------------------
EXTENDS TraceKit, RandomFactory
VARIABLES busy   \* callers inside setNProducerThreads whose effect has taken place
vars == <<kitVars, rfVars, busy>>
Callers == 0..9
Init == KitInit /\ InitRF(Traces[tid].cfg.dflt, Callers) /\ busy = {}
TNum == IsEvent("num") /\ Draw(Cur.vals) /\ UNCHANGED busy
TSeed == IsEvent("seed") /\ Seed(Cur.s) /\ UNCHANGED busy
TReq == IsEvent("req") /\ Request /\ UNCHANGED busy
\* a package arrives complete and unused
TGot == IsEvent("got") /\ (Cur.ok => Cur.pos = 0 /\ Cur.size = Cfg.size) /\ Answered /\ UNCHANGED busy
TRdy == IsEvent("rdy") /\ Answered /\ UNCHANGED busy
TSet == IsEvent("setn") /\ SetCall(Cur.t, IF Cur.n = 0 THEN Cfg.dflt ELSE Cur.n) /\ UNCHANGED busy
\* the effect may have come before or after another caller started the producers
SetNow == /\ More /\ Cur.e \in {"setnd", "req", "got", "rdy"} /\ Silent
          /\ \E c \in Callers, run \in BOOLEAN : SetEffect(c, run) /\ busy' = busy \cup {c}
TSetd == IsEvent("setnd") /\ Cur.t \in busy /\ busy' = busy \ {Cur.t} /\ UNCHANGED rfVars
\* when all clients are done the producers are the configured ones or none have been started
TThreads == IsEvent("threads") /\ ((Cur.n = n /\ started = "yes") \/ (Cur.n = 0 /\ started = "no")) /\ UNCHANGED <<rfVars, busy>>
TFinal == IsEvent("finalized") /\ Cur.n = 0 /\ UNCHANGED <<rfVars, busy>>
TEnd == IsEvent("end") /\ UNCHANGED <<rfVars, busy>>
Next == TNum \/ TSeed \/ TReq \/ TGot \/ TRdy \/ TSet \/ SetNow \/ TSetd \/ TThreads \/ TFinal \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
