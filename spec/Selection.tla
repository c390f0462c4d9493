----------------------------- MODULE Selection ------------------------------
(* Which individuals may be the parents after an iteration.  Individuals are
   known by the number of the evaluation they stem from (id); several copies of
   one individual may be in a population.  F[id] is the sequence of its criteria,
   the first one being the primary one; lower is better throughout.  Populations
   are sequences of ids. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}
Times(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
\* s is contained in t, counting copies
Within(s, t) == \A x \in Range(s) : Times(s, x) <= Times(t, x)
Copies(x, n) == [i \in 1..n |-> x]
Sorted(F, s) == \A i \in 1..(Len(s) - 1) : F[s[i]][1] <= F[s[i + 1]][1]

\* sel is a best choice from cand
Best(F, sel, cand) ==
  /\ Within(sel, cand) /\ Sorted(F, sel)
  /\ sel # << >> => \A x \in Range(cand) : Times(cand, x) > Times(sel, x) => F[x][1] >= F[sel[Len(sel)]][1]

Min1(F, s) == CHOOSE m \in {F[x][1] : x \in Range(s)} : \A x \in Range(s) : m <= F[x][1]

\* the old best parent stays unless a child is better
Retain(F, sel, par, chi) ==
  IF Min1(F, chi) < Min1(F, par) THEN Best(F, sel, chi)
  ELSE sel[1] \in Range(par) /\ F[sel[1]][1] = Min1(F, par) /\ Best(F, Tail(sel), chi)

Dominates(F, x, y) == /\ \A k \in DOMAIN F[x] : F[x][k] <= F[y][k]
                      /\ \E k \in DOMAIN F[x] : F[x][k] < F[y][k]
OnFront(F, x, s) == \A y \in Range(s) : ~Dominates(F, y, x)
Front(F, s) == SelectSeq(s, LAMBDA x : OnFront(F, x, s))
Behind(F, s) == SelectSeq(s, LAMBDA x : ~OnFront(F, x, s))

\* from the front of fresh; places left go to the best of the rest and of reserve
Pareto(F, sel, fresh, reserve) ==
  LET fr == Front(F, fresh) IN
  IF Len(fr) >= Len(sel) THEN Within(sel, fr) /\ Sorted(F, sel)
  ELSE LET rest == Behind(F, fresh) \o reserve IN
       /\ Sorted(F, sel) /\ Within(fr, sel) /\ Within(sel, fr \o rest)
       /\ \A x \in Range(rest) : LET used == Times(sel, x) - Times(fr, x) IN
             Times(rest, x) > used =>
               \A y \in Range(sel) : Times(sel, y) > Times(fr, y) => F[y][1] <= F[x][1]

PLUS == 0
RETAIN == 2
COMMA == 1
PPLUS == 3
PCOMMA == 4
\* sel replaces the parents par, given the children chi; first: in the first iteration of a run
Selects(F, mode, first, sel, par, chi) ==
  LET single == \A x \in Range(sel) : Len(F[x]) = 1
      np == Len(sel) IN
  CASE mode = PLUS \/ (mode \in {COMMA, RETAIN} /\ first) \/ (mode = RETAIN /\ np = 1)
       \/ (mode = PPLUS /\ single) \/ (mode = PCOMMA /\ first /\ single) -> Best(F, sel, par \o chi)
    [] (mode = COMMA \/ (mode = PCOMMA /\ single)) /\ ~first -> Best(F, sel, chi)
    [] mode = RETAIN /\ ~first /\ np > 1 -> Retain(F, sel, par, chi)
    [] mode \in {PPLUS, PCOMMA} /\ ~single /\ (mode = PPLUS \/ first) -> Pareto(F, sel, par \o chi, << >>)
    [] OTHER -> Pareto(F, sel, chi, par)
=============================================================================
