----------------------------- MODULE MCBarrier -----------------------------
(* The generation-counter algorithm (GBarrier) refines the barrier: checked for
   small numbers of threads and rounds. *)
EXTENDS Barrier, TLC
CONSTANTS N, Rounds
Threads == 0..(N-1)
VARIABLES pc, count, gen, mygen
vars == <<bVars, pc, count, gen, mygen>>
Init == InitB(N, Threads) /\ pc = [t \in Threads |-> "out"] /\ count = N /\ gen = 0 /\ mygen = [t \in Threads |-> 0]
Go(t) == pc[t] = "out" /\ entered[t] < Rounds /\ Enter(t) /\ pc' = [pc EXCEPT ![t] = "in"] /\ UNCHANGED <<count, gen, mygen>>
Arrive(t) == /\ pc[t] = "in" /\ mygen' = [mygen EXCEPT ![t] = gen]
             /\ IF count = 1 THEN count' = N /\ gen' = gen + 1 /\ pc' = [pc EXCEPT ![t] = "pass"]
                ELSE count' = count - 1 /\ UNCHANGED gen /\ pc' = [pc EXCEPT ![t] = "wait"]
             /\ UNCHANGED bVars
Wake(t) == pc[t] = "wait" /\ gen # mygen[t] /\ pc' = [pc EXCEPT ![t] = "pass"] /\ UNCHANGED <<bVars, count, gen, mygen>>
Out(t) == pc[t] = "pass" /\ left' = [left EXCEPT ![t] = @ + 1] /\ pc' = [pc EXCEPT ![t] = "out"] /\ UNCHANGED <<entered, cnt, count, gen, mygen>>
Next == \E t \in Threads : Go(t) \/ Arrive(t) \/ Wake(t) \/ Out(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Go(t)) /\ WF_vars(Arrive(t)) /\ WF_vars(Wake(t)) /\ WF_vars(Out(t))
Safe == NoOvertaking(Threads)
AllPass == <>(\A t \in Threads : left[t] = Rounds)
=============================================================================
