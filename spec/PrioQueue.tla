----------------------------- MODULE PrioQueue -----------------------------
(* A priority store limited to the `max` best items (0: no limit).  Items are
   pairs <<identity, rank>>; the store is a sequence, best item first.  Between
   items of equal rank the choice is free. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES store, max, high
pqVars == <<store, max, high>>

Items(s) == {s[i] : i \in 1..Len(s)}
Better(a, b) == IF high THEN a > b ELSE a < b
Min(a, b) == IF a < b THEN a ELSE b
Bound(m, n) == IF m = 0 THEN n ELSE Min(m, n)
Sorted(s, h) == \A i \in 1..(Len(s) - 1) : IF h THEN s[i][2] >= s[i + 1][2] ELSE s[i][2] <= s[i + 1][2]
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i][1] # s[j][1]

\* s is a best-first list of the best n of the candidates c (c: one pair per identity)
IsBestOf(s, c, n, h) ==
    /\ Len(s) = Bound(n, Cardinality(c))
    /\ Items(s) \subseteq c /\ Distinct(s) /\ Sorted(s, h)
    /\ \A x \in c \ Items(s), y \in Items(s) : IF h THEN x[2] <= y[2] ELSE x[2] >= y[2]

Add(new, replace, s) == /\ IsBestOf(s, new \cup (IF replace THEN {} ELSE Items(store)), max, high)
                        /\ store' = s /\ UNCHANGED <<max, high>>
Pop == /\ store # <<>> /\ store' = Tail(store) /\ UNCHANGED <<max, high>>
Clear == store' = <<>> /\ UNCHANGED <<max, high>>
SetMax(n, s) == /\ IsBestOf(s, Items(store), n, high) /\ store' = s /\ max' = n /\ UNCHANGED high
SetOrder(h, s) == /\ IsBestOf(s, Items(store), max, h) /\ store' = s /\ high' = h /\ UNCHANGED max
=============================================================================
