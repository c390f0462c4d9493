------------------------------ MODULE Barrier ------------------------------
(* n threads meet again and again: enter and leave are the observable calls. *)
EXTENDS Integers, FiniteSets
VARIABLES entered, left, cnt   \* thread -> number of rounds entered / left; barrier size
bVars == <<entered, left, cnt>>
InitB(n, threads) == entered = [t \in threads |-> 0] /\ left = [t \in threads |-> 0] /\ cnt = n
Part(threads) == {t \in threads : t < cnt}
Enter(t) == entered[t] = left[t] /\ entered' = [entered EXCEPT ![t] = @ + 1] /\ UNCHANGED <<left, cnt>>
\* nobody leaves round k before everybody has entered round k
Leave(t, threads) == /\ left[t] < entered[t]
                     /\ \A u \in Part(threads) : entered[u] > left[t]
                     /\ left' = [left EXCEPT ![t] = @ + 1] /\ UNCHANGED <<entered, cnt>>
NoOvertaking(threads) == \A t, u \in Part(threads) : left[t] <= entered[u]
=============================================================================
