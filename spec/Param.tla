------------------------------- MODULE Param -------------------------------
(* Constrained parameters.  Numbers are positions relative to a grid: 8 q is grid
   point q, 8 q - 1 the next smaller number, 8 q - 2 and 8 q + 1 numbers close to
   it, 8 q + 4 something in between.  +-Far: some larger number.  Integers use
   the multiples of 8 only. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES kind,       \* 0: double, 1: integer, 2: vector of doubles, 3, 4: collections of 0, 1
          v, lo, up,  \* by position: value shown, range
          act, blk,   \* adaptions active; random initialization blocked
          top, tblk   \* the same for a collection as a whole
pVars == <<kind, v, lo, up, act, blk, top, tblk>>
Far == 8000000
Fp == kind \in {0, 2, 3}
HalfOpen == kind \in {0, 3}
Leaf == kind \in {0, 1, 2}
Idx == DOMAIN v
In(c, a, b) == a <= c /\ c <= b
Grid(c) == (c + 2) \div 8          \* the grid point c is, or is close to
Known(c) == c % 8 \in {0, 1, 6, 7} /\ c # Far /\ c # -Far
Exact(c) == c % 8 = 0 /\ c # Far /\ c # -Far
Prior(c) == c - 1
\* mirror images of the range [l, u], as floating point numbers do it (u excluded)
FoldFp(x, l, u) == LET w == u - l
                       n == (x - l) \div w
                   IN IF n % 2 = 0 THEN x - n * w ELSE 2 * u + (n - 1) * w - x
\* and integers (u included)
FoldInt(x, l, u) == LET w == u - l + 1
                        n == (x - l) \div w
                        y == x - n * w
                    IN IF n % 2 = 0 THEN y ELSE l + u - y
Abs(x) == IF x < 0 THEN -x ELSE x
\* what may be shown (c') after number x has been mapped to the range [a, b]
Maps(c, x, a, b) == /\ In(c, a, b)
                    /\ (IF In(x, a, b) THEN c = x
                        ELSE IF ~Fp THEN (Abs(x) < Far => c = 8 * FoldInt(x \div 8, a \div 8, b \div 8))
                        ELSE (Known(x) /\ Grid(a) < Grid(b)) => Grid(c) = FoldFp(Grid(x), Grid(a), Grid(b)) /\ Known(c))
\* as Maps, for a number that is only close to x
Near(c, x, a, b) == /\ In(c, a, b)
                    /\ (IF ~Fp THEN Maps(c, x, a, b)
                        ELSE Known(x) /\ Grid(a) < Grid(b) => Grid(c) = FoldFp(Grid(x), Grid(a), Grid(b)) /\ Known(c))
Free(c, k) == In(c, lo[k], up[k])
Match(k, m) == m = 0 \/ (m = 1 /\ act[k] = 1) \/ (m = 2 /\ act[k] = 0)
Rest(S) == \A k \in Idx \ S : v'[k] = v[k]
SameSize == DOMAIN v' = Idx
Fixed == UNCHANGED <<kind, lo, up, act, blk, top, tblk>>
\* a value just beyond the (open) end of the range counts as the largest one
Taken(x, b) == IF HalfOpen /\ x = b + 1 THEN b ELSE x
SetOK(p, x) == In(Taken(x, up[p]), lo[p], up[p])
Set(p, x) == /\ SetOK(p, x) /\ v' = [v EXCEPT ![p] = Taken(x, up[p])] /\ Fixed
UpOf(b) == IF HalfOpen THEN Prior(b) ELSE b
SetAllOK(x, a, b) == LET y == (IF HalfOpen /\ x = b THEN Prior(x) ELSE x) IN a <= UpOf(b) /\ In(y, a, UpOf(b))
SetAll(p, x, a, b) == /\ SetAllOK(x, a, b) /\ v' = [v EXCEPT ![p] = (IF HalfOpen /\ x = b THEN Prior(x) ELSE x)]
                      /\ lo' = [lo EXCEPT ![p] = a] /\ up' = [up EXCEPT ![p] = UpOf(b)] /\ UNCHANGED <<kind, act, blk, top, tblk>>
\* new boundaries need to include what is shown, and do not change it
Who(p) == IF kind = 2 THEN Idx ELSE {p}
BoundsOK(p, a, b) == a <= UpOf(b) /\ \A k \in Who(p) : In(v[k], a, UpOf(b))
Bounds(p, a, b) == /\ BoundsOK(p, a, b) /\ lo' = [k \in Idx |-> IF k \in Who(p) THEN a ELSE lo[k]]
                   /\ up' = [k \in Idx |-> IF k \in Who(p) THEN UpOf(b) ELSE up[k]] /\ UNCHANGED <<kind, v, act, blk, top, tblk>>
Hit(m) == {k \in Idx : Match(k, m)}
NthOf(k, S) == Cardinality({j \in S : j <= k})
Assign(xs, m) == /\ Len(xs) = Cardinality(Hit(m)) /\ SameSize /\ Rest(Hit(m)) /\ Fixed
                 /\ \A k \in Hit(m) : Maps(v'[k], xs[NthOf(k, Hit(m))], lo[k], up[k])
Fix(x, m) == SameSize /\ Rest(Hit(m)) /\ Fixed /\ \A k \in Hit(m) : Maps(v'[k], x, lo[k], up[k])
\* y: result in multiples of the grid, if c is known (exactly)
Comp(c, k, known, exact, y) == IF ~known \/ Abs(y) >= 100000 THEN Free(c, k) ELSE IF exact THEN Maps(c, 8 * y, lo[k], up[k]) ELSE Near(c, 8 * y, lo[k], up[k])
Mul(n, m) == SameSize /\ Rest(Hit(m)) /\ Fixed /\ \A k \in Hit(m) : Comp(v'[k], k, Known(v[k]), Exact(v[k]), Grid(v[k]) * n)
Add(w, s, m) == SameSize /\ Rest(Hit(m)) /\ Fixed /\ \A k \in Hit(m) : Comp(v'[k], k, Known(v[k]) /\ Known(w[k]), Exact(v[k]) /\ Exact(w[k]), Grid(v[k]) + s * Grid(w[k]))
RandomMul(m) == SameSize /\ Rest(Hit(m)) /\ Fixed /\ \A k \in Hit(m) : Free(v'[k], k)
Init1(m) == {k \in Hit(m) : tblk = FALSE /\ blk[k] = 0}
RandomInit(m) == SameSize /\ Rest(Init1(m)) /\ Fixed /\ \A k \in Init1(m) : Free(v'[k], k)
Adapted == {k \in Idx : top /\ act[k] = 1}
Adapt == SameSize /\ Rest(Adapted) /\ Fixed /\ \A k \in Adapted : Free(v'[k], k)
Flag(b) == IF b THEN 1 ELSE 0
Act(p, all, on) == /\ UNCHANGED <<kind, v, lo, up, blk, tblk>>
                   /\ (IF Leaf THEN top' = on /\ act' = [k \in Idx |-> Flag(on)]
                       ELSE IF all THEN top' = on /\ UNCHANGED act
                       ELSE act' = [act EXCEPT ![p] = Flag(on)] /\ UNCHANGED top)
Block(p, all, on) == /\ UNCHANGED <<kind, v, lo, up, act, top>>
                     /\ (IF Leaf THEN tblk' = on /\ blk' = [k \in Idx |-> Flag(on)]
                         ELSE IF all THEN tblk' = on /\ UNCHANGED blk
                         ELSE blk' = [blk EXCEPT ![p] = Flag(on)] /\ UNCHANGED tblk)
Refused == UNCHANGED pVars
InRange == \A k \in Idx : In(v[k], lo[k], up[k])
=============================================================================
