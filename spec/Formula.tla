------------------------------- MODULE Formula -------------------------------
(* Mathematical formulas with place holders: grammar and meaning.
   expression = term {("+"|"-") term};  term = factor {("*"|"/") factor};
   factor = number | "(" expression ")" | ("-"|"+") factor | function "(" expression ["," expression] ")" | constant
   A token is [k, n, d, s, i]: k = "num" (value n/d), "op" (text s), "id" (function or constant s),
   "var" (place holder of variable s; its first value if i < 0, otherwise its i-th value, counted from 0).
   A value is a fraction n/d, known up to e/1000 (e = 0: exactly); or an error s; or unknown (outside of what is modelled). *)
EXTENDS Integers, Sequences
Lim == 30000
Mag(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Pow2 == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384}
Unknown == [r |-> "u", n |-> 0, d |-> 1, e |-> 0, s |-> ""]
Err(s) == [r |-> "x", n |-> 0, d |-> 1, e |-> 0, s |-> s]
\* d > 0; fractions that are no binary ones are rounded by the machine
Val(n, d, e) == LET g == Gcd(Mag(n), d) IN LET n1 == n \div g IN LET d1 == d \div g IN
                IF Mag(n1) > Lim \/ d1 > Lim \/ e > 500 THEN Unknown
                ELSE [r |-> "v", n |-> n1, d |-> d1, e |-> (IF e = 0 /\ d1 \notin Pow2 THEN 1 ELSE e), s |-> ""]
Up(v) == (Mag(v.n) \div v.d) + 1          \* a bound of the magnitude
Neg(a) == IF a.r = "v" THEN [a EXCEPT !.n = 0 - @] ELSE a
\* the operands are computed first, the left one before the right one
Both(a, b, f) == IF a.r # "v" THEN a ELSE IF b.r # "v" THEN b ELSE f
Add(a, b) == Both(a, b, Val(a.n * b.d + b.n * a.d, a.d * b.d, a.e + b.e))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Both(a, b, Val(a.n * b.n, a.d * b.d, IF a.e = 0 /\ b.e = 0 THEN 0 ELSE a.e * Up(b) + b.e * Up(a) + 1))
Div(a, b) == Both(a, b, IF b.e > 0 THEN Unknown ELSE IF b.n = 0 THEN Err("div0")
                        ELSE IF a.e > 0 /\ Mag(b.n) < b.d THEN Unknown
                        ELSE Val((IF b.n < 0 THEN 0 - a.n ELSE a.n) * b.d, a.d * Mag(b.n), IF a.e = 0 THEN 0 ELSE a.e + 1))
Less(a, b) == a.n * b.d < b.n * a.d
Wide(a, b, v) == [v EXCEPT !.e = a.e + b.e]
Lesser(a, b) == Both(a, b, Wide(a, b, IF Less(b, a) THEN b ELSE a))
Greater(a, b) == Both(a, b, Wide(a, b, IF Less(a, b) THEN b ELSE a))
RECURSIVE PowN(_, _)
PowN(a, k) == IF k = 0 THEN Val(1, 1, 0) ELSE Mul(a, PowN(a, k - 1))
Power(a, b) == Both(a, b, IF a.e > 0 \/ b.e > 0 \/ b.d # 1 \/ b.n < 0 - 2 \/ b.n > 6 THEN Unknown
                          ELSE IF b.n >= 0 THEN PowN(a, b.n) ELSE IF a.n = 0 THEN Unknown ELSE Div(Val(1, 1, 0), PowN(a, 0 - b.n)))
Root(n) == IF \E x \in 0..173 : x * x = n THEN CHOOSE x \in 0..173 : x * x = n ELSE 0 - 1
SquareRoot(v) == IF v.r = "v" /\ Root(v.n) >= 0 /\ Root(v.d) >= 0 THEN Val(Root(v.n), Root(v.d), 0) ELSE Unknown
Hypot(a, b) == Both(a, b, IF a.e > 0 \/ b.e > 0 THEN Unknown ELSE LET s == SquareRoot(Add(Mul(a, a), Mul(b, b))) IN
                          IF s.r = "v" THEN [s EXCEPT !.e = 1] ELSE s)
\* <<n, d, 1000 * f(n/d)>>
Known(f) ==
  IF f = "acos" THEN {<<1, 1, 0>>, <<0, 1, 1571>>, <<0 - 1, 1, 3142>>, <<1, 2, 1047>>}
  ELSE IF f = "asin" THEN {<<0, 1, 0>>, <<1, 1, 1571>>, <<0 - 1, 1, 0 - 1571>>, <<1, 2, 524>>}
  ELSE IF f = "atan" THEN {<<0, 1, 0>>, <<1, 1, 785>>, <<0 - 1, 1, 0 - 785>>, <<2, 1, 1107>>}
  ELSE IF f = "cos" THEN {<<0, 1, 1000>>, <<1, 1, 540>>, <<0 - 1, 1, 540>>, <<2, 1, 0 - 416>>}
  ELSE IF f = "cosh" THEN {<<0, 1, 1000>>, <<1, 1, 1543>>, <<0 - 1, 1, 1543>>, <<2, 1, 3762>>}
  ELSE IF f = "exp" THEN {<<0, 1, 1000>>, <<1, 1, 2718>>, <<0 - 1, 1, 368>>, <<2, 1, 7389>>}
  ELSE IF f = "log" THEN {<<1, 1, 0>>, <<2, 1, 693>>, <<1, 2, 0 - 693>>, <<10, 1, 2303>>}
  ELSE IF f = "log10" THEN {<<1, 1, 0>>, <<10, 1, 1000>>, <<100, 1, 2000>>, <<2, 1, 301>>}
  ELSE IF f = "sin" THEN {<<0, 1, 0>>, <<1, 1, 841>>, <<0 - 1, 1, 0 - 841>>, <<2, 1, 909>>}
  ELSE IF f = "sinh" THEN {<<0, 1, 0>>, <<1, 1, 1175>>, <<0 - 1, 1, 0 - 1175>>, <<2, 1, 3627>>}
  ELSE IF f = "sqrt" THEN {<<2, 1, 1414>>, <<3, 1, 1732>>}
  ELSE IF f = "tan" THEN {<<0, 1, 0>>, <<1, 1, 1557>>, <<0 - 1, 1, 0 - 1557>>, <<2, 1, 0 - 2185>>}
  ELSE {<<0, 1, 0>>, <<1, 1, 762>>, <<0 - 1, 1, 0 - 762>>, <<2, 1, 964>>}      \* tanh
Unary == {"acos", "asin", "atan", "ceil", "cosh", "cos", "exp", "fabs", "floor", "log10", "log", "sinh", "sin", "sqrt", "tanh", "tan"}
Binary == {"min", "max", "pow", "hypot"}
Outside(f, a) == \/ f \in {"acos", "asin"} /\ Mag(a.n) > a.d
                 \/ f \in {"log", "log10"} /\ a.n <= 0
                 \/ f = "sqrt" /\ a.n < 0
Apply1(f, a) ==
  IF a.r # "v" THEN a
  ELSE IF f = "fabs" THEN [a EXCEPT !.n = Mag(@)]
  ELSE IF a.e > 0 THEN Unknown
  ELSE IF f = "floor" THEN Val(a.n \div a.d, 1, 0)
  ELSE IF f = "ceil" THEN Val(0 - ((0 - a.n) \div a.d), 1, 0)
  ELSE IF Outside(f, a) THEN Err(f)
  ELSE IF f = "sqrt" /\ SquareRoot(a).r = "v" THEN SquareRoot(a)
  ELSE IF \E k \in Known(f) : k[1] = a.n /\ k[2] = a.d
       THEN LET v == (CHOOSE k \in Known(f) : k[1] = a.n /\ k[2] = a.d)[3] IN Val(v, 1000, IF v % 1000 = 0 THEN 0 ELSE 1)
  ELSE Unknown
Apply2(f, a, b) == IF f = "min" THEN Lesser(a, b) ELSE IF f = "max" THEN Greater(a, b) ELSE IF f = "pow" THEN Power(a, b) ELSE Hypot(a, b)
\* ---------------------------------------------------------------- grammar
Is(s, p, t) == p <= Len(s) /\ s[p].k = "op" /\ s[p].s = t
Fail == [p |-> 0, v |-> Unknown]
At(p, v) == [p |-> p, v |-> v]
RECURSIVE Expr(_, _, _), Sum(_, _, _), Term(_, _, _), Prod(_, _, _), Fac(_, _, _)
Expr(s, c, p) == LET t == Term(s, c, p) IN IF t.p = 0 THEN Fail ELSE Sum(s, c, t)
Sum(s, c, a) == IF Is(s, a.p, "+") \/ Is(s, a.p, "-")
                THEN LET t == Term(s, c, a.p + 1) IN
                     IF t.p = 0 THEN Fail ELSE Sum(s, c, At(t.p, IF s[a.p].s = "+" THEN Add(a.v, t.v) ELSE Sub(a.v, t.v)))
                ELSE a
Term(s, c, p) == LET t == Fac(s, c, p) IN IF t.p = 0 THEN Fail ELSE Prod(s, c, t)
Prod(s, c, a) == IF Is(s, a.p, "*") \/ Is(s, a.p, "/")
                 THEN LET t == Fac(s, c, a.p + 1) IN
                      IF t.p = 0 THEN Fail ELSE Prod(s, c, At(t.p, IF s[a.p].s = "*" THEN Mul(a.v, t.v) ELSE Div(a.v, t.v)))
                 ELSE a
Close(s, x, f) == IF x.p # 0 /\ Is(s, x.p, ")") THEN At(x.p + 1, f) ELSE Fail
Fac(s, c, p) ==
  IF p > Len(s) THEN Fail
  ELSE IF s[p].k = "num" THEN At(p + 1, Val(s[p].n, s[p].d, 0))
  ELSE IF Is(s, p, "(") THEN LET x == Expr(s, c, p + 1) IN Close(s, x, x.v)
  ELSE IF Is(s, p, "-") \/ Is(s, p, "+") THEN LET x == Fac(s, c, p + 1) IN IF x.p = 0 THEN Fail ELSE At(x.p, IF s[p].s = "-" THEN Neg(x.v) ELSE x.v)
  ELSE IF s[p].k # "id" THEN Fail
  ELSE IF s[p].s \in Unary THEN (IF ~Is(s, p + 1, "(") THEN Fail ELSE LET x == Expr(s, c, p + 2) IN Close(s, x, Apply1(s[p].s, x.v)))
  ELSE IF s[p].s \in Binary
       THEN (IF ~Is(s, p + 1, "(") THEN Fail
             ELSE LET x == Expr(s, c, p + 2) IN
                  IF x.p = 0 \/ ~Is(s, x.p, ",") THEN Fail ELSE LET y == Expr(s, c, x.p + 1) IN Close(s, y, Apply2(s[p].s, x.v, y.v)))
  ELSE IF s[p].s = "e" THEN At(p + 1, Val(2721, 1001, 1))
  ELSE IF s[p].s = "pi" THEN At(p + 1, Val(355, 113, 1))
  ELSE IF \E i \in DOMAIN c : c[i].s = s[p].s THEN LET k == c[CHOOSE i \in DOMAIN c : c[i].s = s[p].s] IN At(p + 1, Val(k.n, k.d, 0))
  ELSE Fail
\* ---------------------------------------------------------------- place holders: vars is a sequence of [s, v], v a sequence of [n, d]
Op(t) == [k |-> "op", n |-> 0, d |-> 1, s |-> t, i |-> 0]
Number(x) == LET m == [k |-> "num", n |-> Mag(x.n), d |-> x.d, s |-> "", i |-> 0] IN IF x.n < 0 THEN <<Op("-"), m>> ELSE <<m>>
Fill(t, vars) == IF t.k = "var" /\ \E j \in DOMAIN vars : vars[j].s = t.s
                 THEN LET v == vars[CHOOSE j \in DOMAIN vars : vars[j].s = t.s].v IN
                      LET x == IF t.i < 0 THEN 1 ELSE t.i + 1 IN IF x \in DOMAIN v THEN Number(v[x]) ELSE <<t>>
                 ELSE <<t>>
RECURSIVE Filled(_, _)
Filled(s, vars) == IF s = << >> THEN << >> ELSE Fill(Head(s), vars) \o Filled(Tail(s), vars)
\* the meaning of a formula: a value or an error
Meaning(s, c, vars) == IF \E j \in DOMAIN vars : vars[j].v = << >> THEN Err("formula")
                       ELSE LET f == Filled(s, vars) IN LET x == Expr(f, c, 1) IN IF x.p = Len(f) + 1 THEN x.v ELSE Err("formula")
=============================================================================
