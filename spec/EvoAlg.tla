------------------------------- MODULE EvoAlg -------------------------------
(* One run of an algorithm with parents and children (evolutionary algorithm,
   simulated annealing): growth, evaluation of children (of everybody in the
   first iteration), loss and late return of individuals, completion by copies,
   selection, lists of best individuals.  Lower fitness is better. *)
EXTENDS Selection, TLC

VARIABLES
  F,        \* criteria of all individuals evaluated so far
  par,      \* the parents (ids), best first
  chi,      \* individuals evaluated in this iteration and accepted for selection
  ds,       \* nominal size of the population
  first,    \* in the first iteration of the run
  pop,      \* the population after the last iteration
  glob,     \* best individuals of all runs
  known,    \* best primary fitness of this run; None before the first iteration
  acc       \* ids accepted for selection in this run
evoVars == <<F, par, chi, ds, first, pop, glob, known, acc>>

None == 1000000000
SetToSeq(S) == LET RECURSIVE f(_)
                   f(T) == IF T = {} THEN << >> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o f(T \ {x}) IN f(S)
NoCopies(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j

\* new is the list of the at most n best distinct individuals of S
BestList(G, new, S, n) == NoCopies(new) /\ Len(new) = (IF Cardinality(S) < n THEN Cardinality(S) ELSE n) /\ Best(G, new, SetToSeq(S))

Grown(size, rate, mx) == IF rate > 0 /\ size + rate <= mx /\ size < mx THEN size + rate ELSE size
Shortage(n, have) == IF have < n THEN n - have ELSE 0
\* a population of at least n from s: completed with copies of one of its members
Completions(s, n) == IF s = << >> THEN {} ELSE {s \o Copies(c, Shortage(n, Len(s))) : c \in Range(s)}

\* new: the population after selection, given the old parents p and the other candidates c
Selected(G, mode, fst, np, size, new, p, c) ==
  /\ Len(new) = size
  /\ \E all \in Completions(p \o c, size) :
       LET c2 == SubSeq(all, Len(p) + 1, Len(all)) IN
         Within(new, all) /\ Selects(G, mode, fst, SubSeq(new, 1, np), p, c2)
=============================================================================
