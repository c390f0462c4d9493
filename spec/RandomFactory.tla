--------------------------- MODULE RandomFactory ---------------------------
(* The random number factory as its clients see it. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES delivered,  \* numbers handed to some client
          seeds,      \* seeds handed out
          started,    \* producers are running: "no", "maybe", "yes"
          n,          \* configured number of producers
          pend        \* caller -> number of producers asked for, 0: none
rfVars == <<delivered, seeds, started, n, pend>>

InitRF(dflt, callers) == delivered = {} /\ seeds = {} /\ started = "no" /\ n = dflt /\ pend = [c \in callers |-> 0]

Range(s) == {s[i] : i \in 1..Len(s)}
\* numbers are drawn: none of them was ever drawn before, by anybody
Draw(vals) == /\ \A i, j \in 1..Len(vals) : i # j => vals[i] # vals[j]
              /\ Range(vals) \cap delivered = {}
              /\ delivered' = delivered \cup Range(vals)
              /\ UNCHANGED <<seeds, started, n, pend>>
Seed(s) == s \notin seeds /\ seeds' = seeds \cup {s} /\ UNCHANGED <<delivered, started, n, pend>>
\* any request for numbers starts the producers
Request == started' = (IF started = "no" THEN "maybe" ELSE started) /\ UNCHANGED <<delivered, seeds, n, pend>>
Answered == started \in {"maybe", "yes"} /\ started' = "yes" /\ UNCHANGED <<delivered, seeds, n, pend>>
SetCall(c, m) == pend[c] = 0 /\ pend' = [pend EXCEPT ![c] = m] /\ UNCHANGED <<delivered, seeds, started, n>>
\* running producers are never taken away
SetEffect(c, run) == /\ (run => started # "no") /\ (~run => started # "yes")
                     /\ pend[c] > 0 /\ pend' = [pend EXCEPT ![c] = 0]
                     /\ n' = IF run /\ pend[c] < n THEN n ELSE pend[c]
                     /\ UNCHANGED <<delivered, seeds, started>>
=============================================================================
