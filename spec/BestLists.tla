----------------------------- MODULE BestLists ------------------------------
(* Lists of best individuals, as kept by all algorithms.  G: fitness, lower is better. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
ElemsOf(s) == {s[i] : i \in DOMAIN s}
IdsOf(s) == [i \in DOMAIN s |-> s[i][1]]
Distinct(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
\* g is the list of the at most n best distinct individuals of S
BestOf(G, g, S, n) == /\ Distinct(g) /\ Len(g) = (IF Cardinality(S) < n THEN Cardinality(S) ELSE n) /\ ElemsOf(g) \subseteq S
                      /\ \A i \in 1..(Len(g) - 1) : G[g[i]] <= G[g[i + 1]]
                      /\ \A x \in (S \ ElemsOf(g)) : g # << >> /\ G[x] >= G[g[Len(g)]]
MinOf(G, S) == G[CHOOSE x \in S : \A y \in S : G[x] <= G[y]]
\* the logged pairs <<id, fitness>> agree with G
Truthful(G, s) == \A i \in DOMAIN s : G[s[i][1]] = s[i][2]
=============================================================================
