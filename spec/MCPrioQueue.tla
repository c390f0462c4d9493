---------------------------- MODULE MCPrioQueue ----------------------------
(* Bounded model: identities 1..Ids, rank of an identity fixed by Rank; the store
   is compared with the history of everything offered since it was last emptied. *)
EXTENDS PrioQueue, TLC
CONSTANTS Ids, MaxMax, Steps
VARIABLES offered, pure, steps   \* pure: no item was removed or forgotten since then
vars == <<pqVars, offered, pure, steps>>
Rank == [i \in 1..Ids |-> (i * 2) % 3]
U == {<<i, Rank[i]>> : i \in 1..Ids}
Orders(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]}
Lists == UNION {Orders(S) : S \in SUBSET U}
Init == /\ store = <<>> /\ max \in 0..MaxMax /\ high \in BOOLEAN /\ offered = {} /\ pure = TRUE /\ steps = 0
Tick == steps < Steps /\ steps' = steps + 1
Next == Tick /\
   \/ \E new \in SUBSET U, rep \in BOOLEAN, s \in Lists : Add(new, rep, s) /\ offered' = (IF rep THEN new ELSE offered \cup new) /\ pure' = (pure \/ rep)
   \/ Pop /\ pure' = FALSE /\ UNCHANGED offered
   \/ Clear /\ offered' = {} /\ pure' = TRUE
   \/ \E n \in 0..MaxMax, s \in Lists : SetMax(n, s) /\ UNCHANGED offered /\ pure' = (pure /\ offered \subseteq Items(store))
   \/ \E h \in BOOLEAN, s \in Lists : SetOrder(h, s) /\ UNCHANGED offered /\ pure' = (pure /\ offered \subseteq Items(store))
Spec == Init /\ [][Next]_vars
Shape == Sorted(store, high) /\ Distinct(store) /\ (max = 0 \/ Len(store) <= max) /\ Items(store) \subseteq offered
\* exactly the best ones ever offered, although every step sees only the store and the new items
BestEver == pure => IsBestOf(store, offered, max, high)
=============================================================================
