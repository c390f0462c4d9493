------------------------------ MODULE MCSwarm -------------------------------
(* The swarm algorithm for all fitness values, losses, failures and late returns
   in small swarms over a few iterations, and a second run. *)
EXTENDS Swarm
CONSTANTS NN, Mem, Values, Iterations, MaxLost, MaxLate
VARIABLES next,    \* next evaluation
          it,      \* iteration
          late,    \* individuals on their way: [nb, lin, age]
          lost     \* losses of this iteration
vars == <<swVars, next, it, late, lost>>
Hoods == 0..(NN - 1)

Init == /\ F = << >> /\ N = << >> /\ L = << >> /\ pop = [i \in 1..(NN * Mem) |-> [id |-> 0, due |-> TRUE, nb |-> (i - 1) \div Mem]] /\ ret = {} /\ left = DOMAIN pop
        /\ first = TRUE /\ nbb = [n \in Hoods |-> NoOne] /\ gbb = NoOne /\ hist = {} /\ next = 1 /\ it = 1 /\ late = {} /\ lost = 0
Lin(i) == IF pop[i].due THEN {} ELSE L[pop[i].id]
Turn == CHOOSE i \in left : \A j \in left : i <= j
Back == /\ left # {} /\ \E f \in Values : Returned(next, pop[Turn].nb, f, Lin(Turn), TRUE)
        /\ left' = left \ {Turn} /\ next' = next + 1 /\ UNCHANGED <<pop, first, nbb, gbb, hist, it, late, lost>>
Lose == /\ left # {} /\ lost < MaxLost
        /\ \/ late' = late
           \/ Cardinality(late) < MaxLate /\ late' = late \cup {[nb |-> pop[Turn].nb, lin |-> Lin(Turn), age |-> it]}
        /\ left' = left \ {Turn} /\ lost' = lost + 1 /\ UNCHANGED <<F, N, L, pop, ret, first, nbb, gbb, hist, next, it>>
Late == /\ left = {} /\ \E x \in late : x.age < it /\ late' = late \ {x} /\ \E f \in Values : Returned(next, x.nb, f, x.lin, TRUE)
        /\ next' = next + 1 /\ UNCHANGED <<pop, left, first, nbb, gbb, hist, it, lost>>

\* one population for each choice of survivors and replacements, in a fixed order
Seq2(S) == LET RECURSIVE f(_)
               f(T) == IF T = {} THEN << >> ELSE LET x == CHOOSE y \in T : \A z \in T : y <= z IN <<x>> \o f(T \ {x}) IN f(S)
Kept(n) == LET back == {x \in ret : N[x] = n} IN
  IF Cardinality(back) <= Mem THEN {back} ELSE {K \in SUBSET back : Cardinality(K) = Mem /\ \A x \in back \ K : \A y \in K : F[y] <= F[x]}
Fill(n, k) == IF first THEN {[j \in 1..k |-> [id |-> CHOOSE x \in ret : TRUE, due |-> TRUE, nb |-> n]]}
              ELSE {[j \in 1..k |-> Block(pop, n, Mem)[Seq2(S)[j]]] : S \in {T \in SUBSET (1..Mem) : Cardinality(T) = k}}
BlocksOf(n) == UNION {{[j \in 1..Cardinality(K) |-> [id |-> Seq2(K)[j], due |-> FALSE, nb |-> n]] \o g : g \in Fill(n, Mem - Cardinality(K))} : K \in Kept(n)}
RECURSIVE Pops(_)
Pops(n) == IF n = NN THEN {<< >>} ELSE {b \o p : b \in BlocksOf(n), p \in Pops(n + 1)}
NbChoices == {nb \in [Hoods -> ret \cup {nbb[k] : k \in Hoods} \cup {NoOne}] : \A n \in Hoods : nb[n] \in Improve(F, (IF first THEN NoOne ELSE nbb[n]), {x \in ret : N[x] = n})}
End == /\ left = {} /\ it <= Iterations /\ (first => ret # {})
       /\ \E new \in Pops(0), nb \in NbChoices : \E gb \in ret \cup {nb[k] : k \in Hoods} \cup {gbb} : Finish(NN, Mem, new, nb, gb)
       /\ it' = it + 1 /\ lost' = 0 /\ UNCHANGED <<F, N, L, next, late>>
Next == it <= Iterations /\ (Back \/ Lose \/ Late \/ End)
Spec == Init /\ [][Next]_vars

Between == left = DOMAIN pop /\ ret = {} /\ ~first
\* the memory of the swarm is that of everything that ever came back
Memory == Between =>
  /\ gbb \in Bests(F, hist)
  /\ \A n \in Hoods : LET H == {x \in hist : N[x] = n} IN IF H = {} THEN nbb[n] = NoOne ELSE nbb[n] \in Bests(F, H)
  /\ \A i \in DOMAIN pop : ~pop[i].due => \A p \in PersonalBests(F, L, pop[i].id) : F[p] <= F[pop[i].id] /\ F[p] >= F[gbb] /\ p \in hist
\* everybody who moves has something to move to
CanMove == (~first /\ left # {}) => \A i \in DOMAIN pop : ~pop[i].due => nbb[pop[i].nb] # NoOne /\ gbb # NoOne /\ L[pop[i].id] # {}
Shape == Len(pop) = NN * Mem /\ \A i \in DOMAIN pop : pop[i].nb = (i - 1) \div Mem
\* the best of a neighbourhood stays in the population of the iteration in which it was found
Present == Between => \A n \in Hoods : nbb[n] # NoOne => (\E i \in DOMAIN pop : pop[i].nb = n /\ ~pop[i].due)
Better == [][(~first /\ gbb # NoOne) => (F'[gbb'] <= F[gbb] /\ \A n \in Hoods : nbb[n] # NoOne => (nbb'[n] # NoOne /\ F'[nbb'[n]] <= F[nbb[n]]))]_vars
=============================================================================
