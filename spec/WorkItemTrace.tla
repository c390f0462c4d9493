--------------------------- MODULE WorkItemTrace ---------------------------
EXTENDS TraceKit, WorkItem
VARIABLES item, evals
vars == <<kitVars, item, evals>>
Init == KitInit /\ item = [k \in 0..2 |-> Fresh] /\ evals = 0
W == item[Cur.a]
Name == [s \in 0..4 |-> CASE s = 0 -> "DO_IGNORE" [] s = 1 -> "DO_PROCESS" [] s = 2 -> "PROCESSED" [] s = 3 -> "EXCEPTION_CAUGHT" [] s = 4 -> "ERROR_FLAGGED"]
\* everything the item tells about itself
Told(w) == /\ Cur.ps = w.ps /\ Cur.str = Name[w.ps]
           /\ (Cur.p <=> w.ps = DONE) /\ (Cur.i <=> w.ps = IGNORE) /\ (Cur.d <=> w.ps = DUE)
           /\ (Cur.err <=> Errors(w)) /\ (Cur.flg <=> w.ps = FLAGGED)
           /\ Cur.res = Readable(w) /\ (Cur.desc <=> w.desc) /\ Cur.eval = w.eval
           /\ Cur.it = w.it /\ Cur.rs = w.rs /\ Cur.cp = w.cp /\ Cur.buf = w.buf /\ Cur.content = w.content /\ Cur.nres = 2
           /\ (Cur.vpre <=> w.vpre) /\ (Cur.vpost <=> w.vpost)
           /\ (~w.timed => Cur.tz)
Put(k, w) == item' = [item EXCEPT ![k] = w]
Upd(w) == Put(Cur.a, w) /\ Told(w)
Same == UNCHANGED evals
LogOf(w) == LET st == Steps(w, Cur.pre, Cur.proc, Cur.post)
                b == IF w.pre /\ w.vpre THEN <<"B">> ELSE <<>>
                full == b \o <<IF Cur.ext THEN "E" ELSE "M">> \o <<"A">>
            IN IF Len(st) = 1 THEN full[1] ELSE IF Len(st) = 2 THEN full[1] \o full[2] ELSE full[1] \o full[2] \o full[3]
TProcess == /\ IsEvent("process")
            /\ IF W.ps # DUE THEN Cur.kind = "state" /\ Cur.log = "" /\ Cur.ret = None /\ Upd(W) /\ Same
               ELSE LET w == Processed(W, Cur.pre, Cur.proc, Cur.post, evals + 1, <<Cur.tag * 2, W.content>>) IN
                    /\ evals' = evals + 1 /\ Upd(w) /\ Cur.log = LogOf(W)
                    /\ IF w.ps = DONE THEN Cur.kind = "none" /\ Cur.ret = Cur.tag * 2 ELSE Cur.kind = "proc" /\ Cur.ret = None /\ Cur.raw = 0
TSet == IsEvent("set") /\ (Cur.thrown <=> ~CanSet(W, Cur.to)) /\ Upd(Set(W, Cur.to)) /\ Same
TGetClear == IsEvent("getclear") /\ (Cur.thrown <=> ~CanSet(W, Cur.to)) /\ (~Cur.thrown => (Cur.had <=> W.desc)) /\ Upd(Set(W, Cur.to)) /\ Same
TDue == IsEvent("due") /\ Upd(Mark(W, DUE)) /\ Same
TIgnore == IsEvent("ignore") /\ Upd(Mark(W, IGNORE)) /\ Same
TWith == IsEvent("with") /\ (Cur.thrown <=> Cur.m # 2) /\ Upd(IF Cur.m = 2 THEN With(W, <<Cur.tag * 2, 5>>) ELSE W) /\ Same
TFlag == IsEvent("flag") /\ (Cur.thrown <=> Cur.emptymsg) /\ Upd(IF Cur.emptymsg THEN W ELSE Flag(W)) /\ Same
TContent == IsEvent("content") /\ Upd([W EXCEPT !.content = Cur.content]) /\ Same
TVeto == IsEvent("veto") /\ Upd(IF Cur.pre THEN [W EXCEPT !.vpre = ~Cur.v] ELSE [W EXCEPT !.vpost = ~Cur.v]) /\ Same
TReg == IsEvent("register") /\ Upd(IF Cur.pre THEN [W EXCEPT !.pre = TRUE] ELSE [W EXCEPT !.post = TRUE]) /\ Same
TCount == IsEvent("counters") /\ Upd([W EXCEPT !.it = Cur.it, !.rs = Cur.rs, !.cp = Cur.cp, !.buf = Cur.buf]) /\ Same
TCopy == IsEvent("copy") /\ Upd(item[Cur.from]) /\ Same
TEnd == IsEvent("end") /\ UNCHANGED <<item, evals>>
Next == TProcess \/ TSet \/ TGetClear \/ TDue \/ TIgnore \/ TWith \/ TFlag \/ TContent \/ TVeto \/ TReg \/ TCount \/ TCopy \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
