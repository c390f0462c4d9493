------------------------------ MODULE MCParSet ------------------------------
(* All histories of two individuals with few parameters. *)
EXTENDS ParSet, FiniteSets, TLC
CONSTANTS Size, Vals, Free   \* number of integers, their largest value, policies may change
VARIABLES runs   \* evaluations since the parameters were last changed or marked
vars == <<g, pVars, runs>>
Par(v) == [i |-> v, b |-> << >>, d |-> << >>, f |-> << >>]
AllPars == {Par(v) : v \in [1..Size -> 0..Vals]}
C1 == [k |-> 1, a |-> 8, b |-> 0, n |-> 1, neg |-> FALSE]        \* only 0 is valid
C2 == [k |-> 1, a |-> 4, b |-> -4, n |-> Size, neg |-> FALSE]    \* 1 and 2 are
C3 == [k |-> 3, cs |-> <<C1, C2>>, neg |-> FALSE]
C4 == [k |-> 4, cs |-> <<C2, C3>>, neg |-> TRUE]
Cons == IF Free THEN {None, C1} ELSE {None, C1, C4}
Sum(v) == LET RECURSIVE F(_)
              F(s) == IF s = << >> THEN 0 ELSE Head(s) + F(Tail(s)) IN F(v)
Fit(p) == <<10 * (Sum(p.i) - 1)>>
T(r) == IF Abs(r) = Top THEN (IF r < 0 THEN -B ELSE B) ELSE r * (B \div 100)
Result(x, fit) ==
    LET l == Level(x.cons, x.p)  ok == l <= U \/ x.pol = 0 IN
    [x EXCEPT !.s = Ok, !.l = l, !.r = IF ok THEN fit ELSE <<Worst>>,
              !.t = IF ok THEN (IF x.pol = 2 THEN <<T(fit[1])>> ELSE <<IF Abs(fit[1]) = Top THEN fit[1] ELSE 1000 * fit[1]>>) ELSE (IF x.pol = 1 THEN <<Worst>> ELSE << >>),
              !.m = IF ok \/ x.pol = 1 THEN << >> ELSE <<IF Max THEN -l ELSE l>>]
Init == /\ \E mx \in BOOLEAN : g = [max |-> mx, B |-> 1000, mu |-> 1, mr |-> 1, nc |-> 1]
        /\ \E pol \in 0..2, p \in AllPars, q \in AllPars : ind = [k \in 1..2 |-> [p |-> IF k = 1 THEN p ELSE q, s |-> Due, na |-> 0, r |-> << >>, t |-> << >>, m |-> << >>, l |-> 0, pol |-> pol, cons |-> None]]
        /\ sig = {} /\ runs = <<0, 0>>
Reset(a) == runs' = [runs EXCEPT ![a] = 0]
Rs(k) == {<<n, v>> : n \in 0..1, v \in 0..1}
Hist == {<<x>> : x \in Rs(0)} \cup {<<x, y>> : x, y \in Rs(0)}
Next == /\ g' = g
        /\ \/ \E a \in 1..2, how \in {0, 1} :
                 /\ ~(ind[a].s # Due)
                 /\ LET e == Valid(ind[a]) \/ ind[a].pol = 0 IN
                    /\ ind' = [ind EXCEPT ![a] = IF e /\ how = 1 THEN [@ EXCEPT !.s = Failed, !.r = << >>, !.t = << >>, !.m = << >>, !.l = 0] ELSE Result(@, Fit(ind[a].p))]
                    /\ sig' = (IF e /\ how = 0 /\ ind[a].pol = 2 THEN sig \cup {<<Fit(ind[a].p)[1], T(Fit(ind[a].p)[1])>>} ELSE sig)
                    /\ Assert(Process(a, how, Fit(ind[a].p), IF e THEN <<ind[a].p>> ELSE << >>), "evaluation")
                    /\ runs' = (IF e THEN [runs EXCEPT ![a] = @ + 1] ELSE runs)
           \/ \E a \in 1..2, p \in AllPars, rs \in Hist : Adapt(a, rs[Len(rs)][1], rs, p) /\ (IF ind'[a].s = Due THEN Reset(a) ELSE UNCHANGED runs)
           \/ \E a \in 1..2, c \in 1..2 : \E p \in AllPars : Cross(a, 3 - a, c, p) /\ Reset(c)
           \/ \E a \in 1..2 : Copy(a, 3 - a) /\ runs' = [runs EXCEPT ![3 - a] = runs[a]]
           \/ Swap(1, 2) /\ runs' = <<0, 0>>
           \/ \E a \in 1..2 : CannibalOK(3 - a) /\ ind' = [ind EXCEPT ![a] = Result([@ EXCEPT !.p = ind[3 - a].p], ind[3 - a].r)]
                              /\ sig' = (IF ind[a].pol = 2 /\ Valid(ind'[a]) THEN sig \cup {<<ind[3 - a].r[1], T(ind[3 - a].r[1])>>} ELSE sig)
                              /\ Assert(Cannibal(a, 3 - a), "taking over") /\ runs' = [runs EXCEPT ![a] = runs[3 - a]]
           \/ \E a \in 1..2, p \in AllPars : Changed(a, p) /\ Reset(a)
           \/ (Free /\ \E a \in 1..2, v \in 0..2 : SetPolicy(a, v) /\ UNCHANGED runs)
           \/ \E a \in 1..2, c \in Cons : SetConstraint(a, c) /\ UNCHANGED runs
           \/ \E a \in 1..2 : Mark(a) /\ Reset(a)
\* what is left from former evaluations doesn't matter
Core(x) == IF x.s = Ok THEN [x EXCEPT !.na = 0] ELSE [x EXCEPT !.na = 0, !.r = << >>, !.t = << >>, !.m = << >>, !.l = 0]
View == <<g, [k \in 1..2 |-> Core(ind[k])], runs>>
Spec == Init /\ [][Next]_vars
\* fitness belongs to the parameters
Belongs == \A a \in 1..2 : ind[a].s = Ok => ind[a].r \in {Fit(ind[a].p), <<Worst>>}
Once == \A a \in 1..2 : runs[a] <= 1
\* violations never rate better than valid parameters, larger ones not better than smaller ones
Better(x, y) == IF Max THEN x > y ELSE x < y
Ranked == \A a, b \in 1..2 : (~Free /\ ind[a].s = Ok /\ ind[b].s = Ok /\ ind[a].l > U /\ ind[a].pol # 0) =>
              /\ (ind[b].l <= U => ~Better(ind[a].r[1], ind[b].r[1]))
              /\ ((ind[a].pol = 2) => (IF Max THEN ind[a].m[1] < -U ELSE ind[a].m[1] > U))
              /\ ((ind[a].pol = 2 /\ ind[b].l > ind[a].l) => Better(ind[a].m[1], ind[b].m[1]))
Limited == Sigmoid(sig)
=============================================================================
