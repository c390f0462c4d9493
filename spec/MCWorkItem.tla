---------------------------- MODULE MCWorkItem ----------------------------
(* Bounded model of one item and its copies, with history variables. *)
EXTENDS WorkItem, TLC
CONSTANT Depth
VARIABLES w, ok, n   \* ok: the latest run since the item was last marked as due ended normally on the present content
vars == <<w, ok, n>>
S == {0, 1, 4, 5}
Init == w = Fresh /\ ok = FALSE /\ n = 0
Next == n < Depth /\ n' = n + 1 /\
  \/ \E pre, proc, post \in S : w.ps = DUE /\ w' = Processed(w, pre, proc, post, n + 1, <<n + 1, w.content>>)
        /\ ok' = (\A i \in 1..Len(Steps(w, pre, proc, post)) : Steps(w, pre, proc, post)[i] = 0)
  \/ \E to \in 0..4 : w' = Set(w, to) /\ ok' = (ok /\ w'.ps = w.ps)
  \/ \E to \in {IGNORE, DUE} : w' = Mark(w, to) /\ ok' = FALSE
  \/ w' = Flag(w) /\ ok' = FALSE
  \/ \E b \in BOOLEAN : w' = [w EXCEPT !.pre = TRUE, !.post = b] /\ UNCHANGED ok
  \/ \E b \in BOOLEAN : w' = [w EXCEPT !.vpre = b, !.vpost = ~b] /\ UNCHANGED ok
Spec == Init /\ [][Next]_vars
Truthful == w.ps = DONE <=> ok
NoResult == Errors(w) => Readable(w) = <<None, None>> /\ w.desc
Last == (w.ps = DONE) => w.res[1] = w.eval
=============================================================================
