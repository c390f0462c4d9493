------------------------------- MODULE ParSet -------------------------------
(* Individuals: parameters, a constraint, a policy for violations of the constraint, and
   the fitness found for them.  Parameters p: integers i, booleans b, floating point numbers
   d (by identity) together with their integral parts f.  Levels of validity are multiples
   of 1/U; up to 1 is valid. *)
EXTENDS Integers, Sequences
U == 256
TopL == 2000000000
Top == 1000000
VARIABLES g,     \* settings common to all individuals
          ind,   \* the individuals
          sig    \* pairs of raw and transformed values seen so far
pVars == <<ind, sig>>
Max == g.max    \* direction
B == g.B        \* limit of transformed values
MU == g.mu      \* attempts without any change
MR == g.mr      \* attempts after a violation
NC == g.nc      \* criteria
Due == 0  Ok == 1  Failed == 2
Abs(x) == IF x < 0 THEN -x ELSE x
\* what a check makes of the number computed for it
Norm(c, r) == IF r = TopL THEN r ELSE IF r <= U /\ (c.neg \/ r >= 0) THEN 0 ELSE IF r < 0 THEN U + Abs(r) ELSE r
RECURSIVE Level(_, _)
Fold(k, bad) == LET RECURSIVE F(_, _)
                    F(s, acc) == IF s = << >> THEN acc ELSE F(Tail(s), IF k = 3 THEN (acc \div 16) * (Head(s) \div 16) ELSE acc + Head(s))
                IN IF bad = << >> THEN 0 ELSE IF \E n \in DOMAIN bad : bad[n] = TopL THEN TopL ELSE F(Tail(bad), Head(bad))
Raw(c, p) == IF c.k = 0 THEN TopL
             ELSE IF c.k = 1 THEN (c.a * p.i[c.n] + c.b) * (U \div 4)
             ELSE IF c.k = 2 THEN (c.a * p.f[c.n] + c.b) * (U \div 4)
             ELSE Fold(c.k, SelectSeq([n \in DOMAIN c.cs |-> Level(c.cs[n], p)], LAMBDA x : x > U))
Level(c, p) == IF c.k < 0 THEN 0 ELSE Norm(c, Raw(c, p))
None == [k |-> -1]
Valid(x) == Level(x.cons, x.p) <= U
Worst == IF Max THEN -Top ELSE Top
Sigmoid(q) == \* transformed values don't reach beyond the limit and follow the raw values
    /\ \A x \in q : /\ Abs(x[2]) <= B /\ (x[1] = 0 => x[2] = 0) /\ (x[1] > 0 => x[2] >= 0) /\ (x[1] < 0 => x[2] <= 0)
    /\ \A x, y \in q : /\ (x[1] = y[1] => x[2] = y[2]) /\ (x[1] < y[1] => x[2] <= y[2])
                       /\ (x[1] = -y[1] => x[2] = -y[2])
\* fitness found for the parameters of x: fit are the values of the evaluation function, t the transformed ones, m those in units of the limit
Rated(x, y, fit) ==
    LET l == Level(x.cons, x.p) IN
    /\ y.s = Ok /\ y.p = x.p /\ y.l = l
    /\ IF l <= U \/ x.pol = 0 THEN
            /\ y.r = fit
            /\ IF x.pol = 2 THEN sig' = sig \cup {<<fit[k], y.t[k]>> : k \in 1..NC} /\ Sigmoid(sig')
               ELSE y.t = [k \in 1..NC |-> IF Abs(fit[k]) = Top THEN fit[k] ELSE 1000 * fit[k]] /\ sig' = sig
       ELSE /\ y.r = [k \in 1..NC |-> Worst] /\ sig' = sig
            /\ IF x.pol = 1 THEN y.t = [k \in 1..NC |-> Worst] ELSE y.m = [k \in 1..NC |-> IF Max THEN -l ELSE l]
Same(x, y) == x.pol = y.pol /\ x.cons = y.cons
\* how: 0, 4: the evaluation function returns, 1, 2: it throws, 3: it reports an error
Process(a, how, fit, seen) ==
    LET x == ind[a] IN
    IF x.s # Due THEN seen = << >> /\ UNCHANGED pVars
    ELSE IF Valid(x) \/ x.pol = 0 THEN /\ seen = <<x.p>>
                                      /\ (IF how \in {0, 4} THEN Rated(x, ind'[a], fit) ELSE ind'[a].s = Failed /\ ind'[a].p = x.p /\ sig' = sig)
    ELSE seen = << >> /\ Rated(x, ind'[a], fit)
Throws(a, how) == ind[a].s # Due \/ (how \in 1..3 /\ (Valid(ind[a]) \/ ind[a].pol = 0))
Keep == sig' = sig
\* parameters changed to p
Changed(a, p) == ind' = [ind EXCEPT ![a].p = p, ![a].s = Due] /\ Keep
WithInts(p, v) == [p EXCEPT !.i = v]
\* rounds of an adaption: number of values adapted, whether the result is valid
RECURSIVE Rounds(_, _, _)
Rounds(rs, att, inv) ==
    LET n == Head(rs)[1]  ok == Head(rs)[2] = 1  at == IF n = 0 THEN att + 1 ELSE att IN
    rs # << >> /\ IF n = 0 /\ at <= MU THEN Tail(rs) # << >> /\ Rounds(Tail(rs), at, inv)
                  ELSE IF ok \/ inv + 1 > MR THEN Tail(rs) = << >> ELSE Tail(rs) # << >> /\ Rounds(Tail(rs), at, inv + 1)
Adapt(a, n, rs, p) ==
    /\ Rounds(rs, 0, 0) /\ n = rs[Len(rs)][1]
    /\ (\A k \in DOMAIN rs : rs[k][1] = 0) => p = ind[a].p
    /\ rs[Len(rs)][2] = (IF Valid([ind[a] EXCEPT !.p = p]) THEN 1 ELSE 0)
    /\ ind' = [ind EXCEPT ![a].p = p, ![a].na = n, ![a].s = IF \A k \in DOMAIN rs : rs[k][1] = 0 THEN @ ELSE Due]
    /\ Keep
\* one part of x, the rest of y; both parts have at least one element
Mix(x, y, z) == IF Len(x) < 2 THEN z = x ELSE \E k \in 1..(Len(x) - 1) : z = SubSeq(x, 1, k) \o SubSeq(y, k + 1, Len(y))
Cross(a, b, c, p) == /\ Mix(ind[a].p.i, ind[b].p.i, p.i) /\ Mix(ind[a].p.b, ind[b].p.b, p.b) /\ Mix(ind[a].p.d, ind[b].p.d, p.d)
                     /\ ind' = [ind EXCEPT ![c] = [ind[a] EXCEPT !.p = p, !.s = Due]] /\ Keep
Copy(a, b) == ind' = [ind EXCEPT ![b] = ind[a]] /\ Keep
Swap(a, b) == ind' = [ind EXCEPT ![a].p = ind[b].p, ![b].p = ind[a].p, ![a].s = Due, ![b].s = Due] /\ Keep
\* takes over parameters and fitness
CannibalOK(b) == ind[b].s = Ok
Cannibal(a, b) == Rated([ind[a] EXCEPT !.p = ind[b].p], ind'[a], ind[b].r)
SetPolicy(a, v) == ind' = [ind EXCEPT ![a].pol = v] /\ Keep
SetConstraint(a, c) == ind' = [ind EXCEPT ![a].cons = c] /\ Keep
Mark(a) == ind' = [ind EXCEPT ![a].s = Due] /\ Keep
Good(a, v) == \A k \in DOMAIN v : IF Max THEN ind[a].r[k] >= v[k] ELSE ind[a].r[k] <= v[k]
=============================================================================
