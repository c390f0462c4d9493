------------------------------- MODULE Swarm --------------------------------
(* One run of the swarm algorithm: individuals move, are evaluated, get lost or
   return late; the best positions of each individual, each neighbourhood and of
   the whole swarm are remembered; neighbourhoods are restored to their nominal
   size.  Individuals are named by evaluations.  Lower fitness is better. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES
  F,      \* fitness of all individuals evaluated so far
  N,      \* their neighbourhoods
  L,      \* ... the evaluations of this run they descend from, including themselves
  pop,    \* the population after the last iteration: [id, due, nb]; due: a random replacement, not evaluated yet
  ret,    \* individuals that came back in this iteration
  left,   \* positions of the population from which nobody has been evaluated yet in this iteration
  first,  \* in the first iteration of the run
  nbb,    \* best individual of each neighbourhood, or NoOne
  gbb,    \* best individual of the swarm, or NoOne
  hist    \* all individuals that came back in this run
swVars == <<F, N, L, pop, ret, left, first, nbb, gbb, hist>>

NoOne == -2
Elems(s) == {s[i] : i \in DOMAIN s}
Bests(G, S) == {x \in S : \A y \in S : G[x] <= G[y]}
\* best of S and of the one known so far
Improve(G, old, S) == IF old = NoOne THEN (IF S = {} THEN {NoOne} ELSE Bests(G, S))
                      ELSE IF \E x \in S : G[x] < G[old] THEN Bests(G, S) ELSE {old} \cup {x \in S : G[x] = G[old]}
PersonalBests(G, A, x) == Bests(G, A[x])

\* the individual x, evaluated in neighbourhood n with fitness f, was the member m before (NoOne: it has no past)
Returned(x, n, f, lin, accepted) ==
  /\ F' = F @@ (x :> f) /\ N' = N @@ (x :> n) /\ L' = L @@ (x :> (lin \cup {x}))
  /\ ret' = (IF accepted THEN ret \cup {x} ELSE ret)

\* members of a neighbourhood after an iteration; old: those before it; back: those which came back.
\* (Bound variables with one value, here and below, make TLC evaluate expressions only once.)
Members(G, n, new, old, back, size) ==
  \E kept \in {{i \in DOMAIN new : ~new[i].due /\ new[i].id \in back}} : \E ids \in {{new[i].id : i \in kept}} :
    /\ Len(new) = size /\ \A i \in DOMAIN new : new[i].nb = n
    /\ Cardinality(ids) = Cardinality(kept)
    /\ IF Cardinality(back) >= size
       THEN /\ Cardinality(kept) = size
            /\ \A x \in back \ ids : \A y \in ids : G[y] <= G[x]
       ELSE /\ Cardinality(kept) = Cardinality(back)
            /\ LET fill == DOMAIN new \ kept IN
               IF first THEN \A i \in fill : new[i].due
               ELSE \A i \in fill : Cardinality({j \in fill : new[j] = new[i]}) <= Cardinality({j \in DOMAIN old : old[j] = new[i]})

\* the end of an iteration; new: the population, nn neighbourhoods of the given size
Block(s, n, size) == SubSeq(s, (n * size) + 1, (n + 1) * size)
Finish(nn, size, new, nb, gb) ==
  /\ first => ret # {}
  /\ Len(new) = nn * size
  /\ \A n \in 0..(nn - 1) : \E back \in {{x \in ret : N[x] = n}} :
       /\ \E blk \in {Block(new, n, size)}, old \in {IF first THEN << >> ELSE Block(pop, n, size)} : Members(F, n, blk, old, back, size)
       /\ nb[n] \in Improve(F, (IF first THEN NoOne ELSE nbb[n]), back)
  /\ gb \in Improve(F, (IF first THEN NoOne ELSE gbb), {nb[n] : n \in 0..(nn - 1)} \ {NoOne})
  /\ pop' = new /\ nbb' = nb /\ gbb' = gb
  /\ hist' = hist \cup ret /\ ret' = {} /\ left' = DOMAIN new /\ first' = FALSE
=============================================================================
