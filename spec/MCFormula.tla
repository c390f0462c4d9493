------------------------------ MODULE MCFormula ------------------------------
(* Trees of operations are built bottom-up; each carries its value, computed from the structure, and its text
   with as few parentheses as the precedences allow. Reading the text must give the value back. *)
EXTENDS Formula, TLC
CONSTANT Nodes
VARIABLES st, cnt
vars == <<st, cnt>>
X == <<[s |-> "x", v |-> <<[n |-> 2, d |-> 1], [n |-> 0 - 3, d |-> 2]>>]>>
C == <<[s |-> "k", n |-> 3, d |-> 1]>>
Tk(k, s, i) == [k |-> k, n |-> 0, d |-> 1, s |-> s, i |-> i]
Nu(a, b) == [k |-> "num", n |-> a, d |-> b, s |-> "", i |-> 0]
Leaf(t, v) == [t |-> <<t>>, p |-> 3, v |-> v]
Leaves == {Leaf(Nu(0, 1), Val(0, 1, 0)), Leaf(Nu(1, 2), Val(1, 2, 0)), Leaf(Tk("var", "x", 0 - 1), Val(2, 1, 0)), Leaf(Tk("var", "x", 1), Val(0 - 3, 2, 0)), Leaf(Tk("id", "k", 0), Val(3, 1, 0))}
Par(t, need) == IF t.p >= need THEN t.t ELSE <<Op("(")>> \o t.t \o <<Op(")")>>
Bin(o, a, b) == IF o \in {"+", "-"} THEN [t |-> Par(a, 1) \o <<Op(o)>> \o Par(b, 2), p |-> 1, v |-> IF o = "+" THEN Add(a.v, b.v) ELSE Sub(a.v, b.v)]
                ELSE [t |-> Par(a, 2) \o <<Op(o)>> \o Par(b, 3), p |-> 2, v |-> IF o = "*" THEN Mul(a.v, b.v) ELSE Div(a.v, b.v)]
Fun1(f, a) == [t |-> <<Tk("id", f, 0), Op("(")>> \o a.t \o <<Op(")")>>, p |-> 3, v |-> Apply1(f, a.v)]
Fun2(f, a, b) == [t |-> <<Tk("id", f, 0), Op("(")>> \o a.t \o <<Op(",")>> \o b.t \o <<Op(")")>>, p |-> 3, v |-> Apply2(f, a.v, b.v)]
Minus(a) == [t |-> <<Op("-")>> \o Par(a, 3), p |-> 3, v |-> Neg(a.v)]
L == Len(st)
Init == st = << >> /\ cnt = 0
Push == \E x \in Leaves : st' = Append(st, x)
One == L >= 1 /\ \E x \in {Minus(st[L])} \cup {Fun1(f, st[L]) : f \in {"floor", "sqrt"}} : st' = [st EXCEPT ![L] = x]
Two == L >= 2 /\ \E x \in {Bin(o, st[L - 1], st[L]) : o \in {"+", "-", "*", "/"}} \cup {Fun2("max", st[L - 1], st[L])} : st' = Append(SubSeq(st, 1, L - 2), x)
Next == cnt < Nodes /\ cnt' = cnt + 1 /\ (Push \/ One \/ Two)
Spec == Init /\ [][Next]_vars
Top == st[L]
Reads == L > 0 => Meaning(Top.t, C, X) = Top.v
\* more parentheses change nothing
Wrapped == L > 0 => Meaning(<<Op("(")>> \o Top.t \o <<Op(")")>>, C, X) = Top.v
\* two formulas in a row (unless a sign comes with the value of a variable), an open end, an unknown name, a missing variable are errors
Strict == L > 0 => /\ (Top.t[1].k \notin {"op", "var"} => Meaning(Top.t \o Top.t, C, X) = Err("formula"))
                   /\ Meaning(Append(Top.t, Op("+")), C, X) = Err("formula")
                   /\ Meaning(Append(Top.t, Op(")")), C, X) = Err("formula")
                   /\ ((\E i \in DOMAIN Top.t : Top.t[i].k = "var") => Meaning(Top.t, C, << >>) = Err("formula"))
                   /\ Meaning(Top.t, C, Append(X, [s |-> "y", v |-> << >>])) = Err("formula")
=============================================================================
