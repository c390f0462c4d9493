------------------------------ MODULE MCEvoAlg ------------------------------
(* The algorithms with parents and children, for all fitness values, losses,
   late returns and growth in small populations.  Individuals with equal criteria
   are identified (F is the identity), so that runs of any length are covered. *)
EXTENDS EvoAlg
CONSTANTS Values,   \* of one criterion
          Modes,    \* 0..4, 5: simulated annealing
          Nps, Extra, Rates, Losses, Ncrit, Nrec
VARIABLES mode, np, rate, mx, best0, front0, step
vars == <<evoVars, mode, np, rate, mx, best0, front0, step>>

SA == 5
Ind == [1..Ncrit -> Values]
Multi == Ncrit > 1 /\ mode \in {PPLUS, PCOMMA}
MinSize == IF mode \in {COMMA, RETAIN, SA} \/ (mode = PCOMMA /\ Ncrit = 1) THEN 2 * np ELSE np + 1
RECURSIVE Bags(_, _)
\* sequences of length n with members of S, one for each multiset
Bags(S, n) == IF n = 0 THEN {<< >>} ELSE IF S = {} THEN {} ELSE
  LET x == CHOOSE y \in S : TRUE IN Bags(S \ {x}, n) \cup {<<x>> \o t : t \in Bags(S, n - 1)}
Seqs(S, n) == [1..n -> S]

Init ==
  /\ F = [x \in Ind |-> x] /\ par = << >> /\ chi = << >> /\ first = TRUE /\ pop = << >> /\ glob = << >> /\ known = None /\ acc = {}
  /\ mode \in Modes /\ np \in Nps /\ ds \in {MinSize + e : e \in Extra} /\ rate \in Rates /\ mx = ds + 1
  /\ best0 = None /\ front0 = {} /\ step = "eval"

\* what comes back in one iteration: everybody in the first one, the children later
Eval ==
  /\ step = "eval"
  /\ LET size == IF first THEN ds ELSE Grown(ds, rate, mx)
         want == size - (IF first THEN 0 ELSE np) IN
     /\ ds' = size
     /\ \E lost \in Losses, back \in Losses : lost <= want /\ \E c \in Bags(Ind, want - lost), b \in Bags(Ind, back) : chi' = c \o b
     /\ step' = (IF first /\ chi' = << >> THEN "failed" ELSE "select")
  /\ UNCHANGED <<F, par, first, pop, glob, known, acc, mode, np, rate, mx, best0, front0>>

\* completed by copies of the last one
Full == LET s == par \o chi IN s \o Copies(s[Len(s)], Shortage(ds, Len(s)))
Kids == SubSeq(Full, Len(par) + 1, Len(Full))
SaNew(all) == LET p == SubSeq(all, 1, np)
                  k == CHOOSE s \in Seqs(Range(SubSeq(all, np + 1, Len(all))), np) : Best(F, s, SubSeq(all, np + 1, Len(all))) IN
  {[i \in 1..(2 * np) |-> IF i <= np THEN (IF i \in A THEN k[i] ELSE p[i]) ELSE (IF i - np \in A THEN p[i - np] ELSE k[i - np])] :
     A \in {B \in SUBSET (1..np) : \A i \in 1..np : F[k[i]][1] <= F[p[i]][1] => i \in B}}
NewParents(all) ==
  IF mode = SA THEN {} ELSE {s \in Seqs(Range(all), np) : Selects(F, mode, first, s, par, SubSeq(all, Len(par) + 1, Len(all)))}
Select ==
  /\ step = "select"
  /\ \E sel \in (IF mode = SA THEN SaNew(Full) ELSE NewParents(Full)) :
       LET ps == SubSeq(sel, 1, np)
           sp == IF mode = SA THEN CHOOSE t \in Seqs(Range(ps), np) : Within(t, ps) /\ Sorted(F, t) ELSE ps
           offered == Range(sel) \cup Range(glob)
           judged == IF Len(par) = 0 \/ mode = PPLUS THEN Full ELSE Kids IN
       /\ par' = sp /\ pop' = sp
       /\ \E n \in 0..Nrec, g \in UNION {Seqs(Ind, k) : k \in 0..Nrec} :
            Len(g) = n /\ BestList(F, g, (IF Multi THEN {x \in Range(sel) \cap Range(judged) : OnFront(F, x, judged)} ELSE offered), Nrec) /\ glob' = g
       /\ known' = (IF F[sp[1]][1] < known THEN F[sp[1]][1] ELSE known)
       /\ best0' = F[sp[1]][1] /\ front0' = {x \in Range(sp) : OnFront(F, x, judged)}
  /\ acc' = acc \cup Range(chi) /\ chi' = << >> /\ first' = FALSE /\ step' = "eval"
  /\ UNCHANGED <<F, ds, mode, np, rate, mx>>

\* a further run starts with the population of the last one
Again == /\ step = "eval" /\ ~first /\ first' = TRUE /\ known' = None /\ best0' = None /\ front0' = {} /\ par' = << >> /\ acc' = acc
         /\ UNCHANGED <<F, chi, ds, pop, glob, mode, np, rate, mx, step>>
Next == Eval \/ Select \/ Again
Spec == Init /\ [][Next]_vars

Some == step = "eval" /\ ~first
Sizes == Some => Len(par) = np /\ ds <= mx /\ Sorted(F, par)
\* nothing accepted is better than the best solution on record
NothingLost == (Some /\ ~Multi) => \A x \in acc : F[x][1] >= F[glob[1]][1]
\* the list of best solutions has no copies and is sorted
ListSane == NoCopies(glob) /\ Len(glob) <= Nrec /\ Sorted(F, glob)
\* the best parent never gets worse where the mode promises this
Monotone == [][((mode \in {PLUS, RETAIN}) \/ (mode = PPLUS /\ Ncrit = 1)) => (best0' = None \/ best0' <= best0)]_vars
\* a parent on the front is given up only for lack of room, or if it is dominated
FrontKept == [][(mode = PPLUS /\ Multi /\ step = "select" /\ ~first) =>
                 \A x \in front0 : x \in Range(par') \/ (\E y \in Range(Full) : Dominates(F, y, x)) \/ Range(par') \subseteq {y \in Range(Full) : OnFront(F, y, Full)}]_vars
\* no dominated candidate becomes a parent while one of the front is left out
FrontFirst == [][(Multi /\ step = "select") =>
                 LET j == IF Len(par) = 0 \/ mode = PPLUS THEN Full ELSE Kids IN
                 (\E x \in Range(par') : ~OnFront(F, x, j)) => \A y \in Range(j) : OnFront(F, y, j) => y \in Range(par')]_vars
\* comma selection forgets the parents; ties aside
Comma == [][(mode = COMMA /\ step = "select" /\ ~first) => Range(par') \subseteq Range(Kids)]_vars
=============================================================================
