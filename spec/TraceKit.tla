------------------------------ MODULE TraceKit ------------------------------
(* Frame of the trace specifications.  A batch of recorded executions is read
   from the file named by the environment variable TRACES (one JSON object per
   line: "cfg" and "ev", a sequence of events).  A trace specification picks one
   of them in its initial state (variable tid) and consumes its events one by
   one (variable l = next event).  TLC register i holds the longest prefix of
   trace i that some behaviour of the specification explains; the postcondition
   prints them.  Needs -workers 1 and deadlock checking off. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
NTraces == Len(Traces)

ASSUME \A i \in 1..NTraces : TLCSet(i, 0)

VARIABLES tid, l
kitVars == <<tid, l>>

Ev == Traces[tid].ev
Cfg == Traces[tid].cfg
More == l <= Len(Ev)
Cur == Ev[l]
IsEvent(e) == More /\ Cur.e = e /\ l' = l + 1 /\ UNCHANGED tid
KitInit == tid \in 1..NTraces /\ l = 1
Silent == UNCHANGED kitVars

\* as a CONSTRAINT: remember progress; stop exploring a trace once it is explained
Progress == IF TLCGet(tid) >= Len(Ev) /\ Len(Ev) > 0 THEN FALSE
            ELSE IF l - 1 > TLCGet(tid) THEN TLCSet(tid, l - 1) ELSE TRUE
Report == \A i \in 1..NTraces : PrintT(<<"RES", i, TLCGet(i)>>)

Has(r, f) == f \in DOMAIN r
=============================================================================
