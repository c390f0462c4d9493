---------------------------- MODULE ParSetTrace ----------------------------
(* Conformance of individuals: of each, the visible state is recorded after every operation.
   The fitness of individuals that aren't mentioned in a step stays as it was. *)
EXTENDS TraceKit
VARIABLES g, ind, sig
P == INSTANCE ParSet
vars == <<kitVars, g, ind, sig>>
\* what is seen of an individual; what can't be seen comes from old
View(v, old) == [p |-> v.p, s |-> v.s, na |-> v.na, r |-> v.r, t |-> v.t, m |-> v.m, l |-> (IF v.s = 1 THEN v.l ELSE 0), pol |-> old.pol, cons |-> old.cons]
Consistent(v) == v.s = 1 => v.same /\ v.v = (v.l <= P!U) /\ v.iv = ~v.v /\ v.c = v.v
Norm(x) == IF x.s = 1 THEN x ELSE [x EXCEPT !.r = << >>, !.t = << >>, !.m = << >>, !.l = 0]
Init == KitInit /\ g = Cfg /\ ind = << >> /\ sig = {}
TMake == /\ IsEvent("make") /\ ind' = [k \in DOMAIN Cur.x |-> View(Cur.x[k], [pol |-> Cfg.pol, cons |-> P!None])] /\ sig' = sig
         /\ \A k \in DOMAIN Cur.x : Cur.x[k].s = 0
\* the state recorded, with settings taken from the state src
Seen(src) == \A k \in DOMAIN Cur.x : Consistent(Cur.x[k]) /\ View(Cur.x[k], src[k]) = Norm(src[k])
Op(e) == IsEvent(e) /\ Seen(ind')
\* individual a is rated anew
OpRate(e, a) == IsEvent(e) /\ ind' = [ind EXCEPT ![a] = View(Cur.x[a], ind[a])] /\ (\A k \in DOMAIN Cur.x : Consistent(Cur.x[k]) /\ (k # a => View(Cur.x[k], ind[k]) = Norm(ind[k])))
Fine == ~Cur.thrown
Refuse == Cur.thrown /\ UNCHANGED <<ind, sig>>
TProcess == /\ Cur.e = "process" /\ OpRate("process", Cur.a) /\ P!Process(Cur.a, Cur.how, Cur.res, Cur.seen) /\ Cur.thrown = P!Throws(Cur.a, Cur.how) /\ ind'[Cur.a].na = ind[Cur.a].na
TAdapt == Cur.e = "adapt" /\ (Fine /\ P!Adapt(Cur.a, Cur.n, Cur.rounds, Cur.x[Cur.a].p) /\ Op("adapt"))
TCross == Cur.e = "cross" /\ (Fine /\ P!Cross(Cur.a, Cur.b, Cur.c, Cur.x[Cur.c].p) /\ Op("cross"))
TCopy == Cur.e = "copy" /\ (Fine /\ P!Copy(Cur.a, Cur.b) /\ Op("copy"))
TSwap == Cur.e = "swap" /\ (Fine /\ P!Swap(Cur.a, Cur.b) /\ Op("swap"))
TCannibal == Cur.e = "cannibal" /\ (IF P!CannibalOK(Cur.b) THEN Fine /\ OpRate("cannibal", Cur.a) /\ P!Cannibal(Cur.a, Cur.b) /\ ind'[Cur.a].na = ind[Cur.a].na ELSE Refuse /\ Op("cannibal"))
A == ind[Cur.a]
TRandom == Cur.e = "random" /\ (Fine /\ (IF Cur.res THEN P!Changed(Cur.a, Cur.x[Cur.a].p) ELSE UNCHANGED <<ind, sig>>) /\ Op("random"))
Ints == A.p.i
TAssign == Cur.e = "assign" /\ (Fine /\ P!Changed(Cur.a, P!WithInts(A.p, Cur.val)) /\ Op("assign"))
TTimes == Cur.e = "times" /\ (Fine /\ P!Changed(Cur.a, P!WithInts(A.p, [k \in DOMAIN Ints |-> Ints[k] * Cur.val])) /\ Op("times"))
TFixed == Cur.e = "fixed" /\ (Fine /\ P!Changed(Cur.a, P!WithInts(A.p, [k \in DOMAIN Ints |-> Cur.val])) /\ Op("fixed"))
TAdd == Cur.e = "add" /\ (Fine /\ P!Changed(Cur.a, P!WithInts(A.p, [k \in DOMAIN Ints |-> Ints[k] + Cur.val * ind[Cur.b].p.i[k]])) /\ Op("add"))
TPolicy == Cur.e = "policy" /\ (Fine /\ P!SetPolicy(Cur.a, Cur.val) /\ Op("policy"))
TConstraint == Cur.e = "constraint" /\ (Fine /\ P!SetConstraint(Cur.a, Cur.val) /\ Op("constraint"))
TDue == Cur.e = "due" /\ (Fine /\ P!Mark(Cur.a) /\ Op("due"))
TGood == Cur.e = "good" /\ ((IF A.s = 1 THEN Fine /\ Cur.res = P!Good(Cur.a, Cur.val) /\ UNCHANGED <<ind, sig>> ELSE Refuse) /\ Op("good"))
TEnd == IsEvent("end") /\ UNCHANGED <<ind, sig>>
Next == g' = g /\ (TMake \/ (More /\ Cur.e \notin {"make", "end"} /\ (TProcess \/ TAdapt \/ TCross \/ TCopy \/ TSwap \/ TCannibal \/ TRandom \/ TAssign \/ TTimes \/ TFixed \/ TAdd \/ TPolicy \/ TConstraint \/ TDue \/ TGood)) \/ TEnd)
Spec == Init /\ [][Next]_vars
=============================================================================
