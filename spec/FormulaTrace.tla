---------------------------- MODULE FormulaTrace ----------------------------
(* Trace specification for drivers/d_form.cpp: parsers of formulas, evaluated again and again. *)
EXTENDS Formula, TraceKit
VARIABLES made
vars == <<made, tid, l>>
Init == KitInit /\ made = {}
Put(x, v) == {y \in made : y.x # x} \cup {[x |-> x, tok |-> v.tok, con |-> v.con]}
Of(x) == CHOOSE y \in made : y.x = x
TMake == IsEvent("make") /\ made' = Put(Cur.x, Cur)
Close3(m, v) == Mag(m - ((1000 * v.n) \div v.d)) <= v.e + 2 + (Mag(v.n) \div v.d) \div 100
Matches(r, v) == IF v.r = "u" THEN TRUE ELSE IF v.r = "x" THEN r.s = v.s ELSE r.s = "" /\ Close3(r.m, v)
TEval == IsEvent("eval") /\ (\E y \in made : y.x = Cur.x) /\ Matches(Cur.res, Meaning(Of(Cur.x).tok, Of(Cur.x).con, Cur.vars)) /\ UNCHANGED made
Next == TMake \/ TEval
Spec == Init /\ [][Next]_vars
=============================================================================
