------------------------------ MODULE WorkItem ------------------------------
(* A work item: its processing status, stored results, error description, the
   identity of its latest evaluation and what travels along when it is copied. *)
EXTENDS Integers, Sequences, FiniteSets

\* numbers as in the implementation's public enumeration
IGNORE == 0
DUE == 1
DONE == 2
EXC == 3
FLAGGED == 4
None == -7   \* a result that cannot be read

Fresh == [ps |-> IGNORE, res |-> <<0, 0>>, desc |-> FALSE, eval |-> 0, pre |-> FALSE, post |-> FALSE,
          vpre |-> TRUE, vpost |-> TRUE, it |-> 0, rs |-> 0, cp |-> 0, buf |-> 0, content |-> 0, timed |-> FALSE]

Errors(w) == w.ps \in {EXC, FLAGGED}
Readable(w) == IF w.ps = DONE THEN w.res ELSE <<None, None>>

\* steps: 0 fine, 4 flags an error, everything else throws (5: flags first)
Throws(s) == s \notin {0, 4}
\* the steps carried out, in order
Steps(w, pre, proc, post) ==
    LET p1 == IF w.pre /\ w.vpre THEN <<pre>> ELSE <<>>
        p3 == IF w.post /\ w.vpost THEN <<post>> ELSE <<>>
        all == p1 \o <<proc>> \o p3
        n == IF \E i \in 1..Len(all) : Throws(all[i]) THEN CHOOSE i \in 1..Len(all) : Throws(all[i]) /\ \A j \in 1..(i - 1) : ~Throws(all[j]) ELSE Len(all)
    IN SubSeq(all, 1, n)
Outcome(steps) == IF \E i \in 1..Len(steps) : Throws(steps[i]) THEN EXC
                  ELSE IF \E i \in 1..Len(steps) : steps[i] = 4 THEN FLAGGED ELSE DONE
\* the item after processing; e: identity of the evaluation; r: what the processing function stores
Processed(w, pre, proc, post, e, r) ==
    LET o == Outcome(Steps(w, pre, proc, post)) IN
    [w EXCEPT !.ps = o, !.eval = e, !.desc = (o # DONE), !.res = (IF o = DONE THEN r ELSE <<0, 0>>), !.timed = (o = DONE)]

CanSet(w, to) == \/ to = w.ps
                 \/ w.ps = IGNORE /\ to = DUE
                 \/ w.ps = DUE /\ to = IGNORE
                 \/ w.ps \in {DONE, EXC, FLAGGED} /\ to \in {IGNORE, DUE}
Set(w, to) == IF to = w.ps \/ ~CanSet(w, to) THEN w ELSE [w EXCEPT !.ps = to, !.desc = FALSE, !.res = <<0, 0>>]
Mark(w, to) == [w EXCEPT !.ps = to]
With(w, r) == [w EXCEPT !.ps = DONE, !.desc = FALSE, !.res = r]
Flag(w) == [w EXCEPT !.ps = FLAGGED, !.desc = TRUE]
=============================================================================
