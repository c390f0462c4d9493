---------------------------- MODULE NetExecutor -----------------------------
(* The broker executor with consumers that may return copies late, repeatedly or
   not at all.  One call ("iteration" it) submits the due items of a batch and may
   submit the missing ones again ("cycles").  Everything that comes back passes
   through the port's queue, in order.  The executor stops waiting when nothing is
   missing, when the configured share has come back, or - unless it is to wait for
   every item - at its time-out, which cannot expire before anything was ever
   processed. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cf,      \* [notimeout, part, maxr]
          phase,   \* "idle", "wait"
          it,      \* number of the current call
          cyc,     \* submissions of this call so far, minus one
          resub,   \* missing items are to be submitted again
          batch,   \* seq of [id, st]   st: "due", "ok", "err", "ign"
          home,    \* set of [it, pos, id] of everything ever submitted
          raw,     \* items waiting for a consumer: seq of [id, labs], labs the labels [it, pos, rs] they were submitted under
          taken,   \* copies a consumer has taken (and may return)
          q,       \* returned copies not yet looked at: [n, it, pos, ok, done, after] (after: those that had been put before this one was)
          expct,   \* number of items submitted in this cycle
          nret,    \* number of them that have returned
          first,   \* nothing processed has ever come back
          olds     \* results of earlier calls handed over in this call: seq of [it, pos]
nVars == <<cf, phase, it, cyc, resub, batch, home, raw, taken, q, expct, nret, first, olds>>
InitN(c) == /\ cf = c /\ phase = "idle" /\ it = -1 /\ cyc = 0 /\ resub = FALSE /\ batch = <<>> /\ home = {} /\ raw = <<>> /\ taken = {}
            /\ q = {} /\ expct = 0 /\ nret = 0 /\ first = TRUE /\ olds = <<>>
Due(b) == {k \in DOMAIN b : b[k].st = "due"}
Label(i, k, c) == [it |-> i, pos |-> k, rs |-> c]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE x \in S : \A y \in S : x <= y IN <<k>> \o SeqOf(S \ {k})
New(b, i, c) == LET d == SeqOf(Due(b)) IN [n \in 1..Len(d) |-> [id |-> b[d[n]].id, labs |-> {Label(i, d[n], c)}]]
\* an item which is still waiting when it is submitted again takes part under its new label
Relabel(b, i, c) == [n \in DOMAIN raw |-> [raw[n] EXCEPT !.labs = @ \cup {Label(i, k, c) : k \in {j \in Due(b) : b[j].id = raw[n].id}}]]
Submitted(b, i, c) == Relabel(b, i, c) \o New(b, i, c)
Without(s, n) == [m \in 1..(Len(s) - 1) |-> IF m < n THEN s[m] ELSE s[m + 1]]
Call(i, rsb, b) ==
  /\ phase = "idle" /\ i > it
  /\ phase' = "wait" /\ it' = i /\ cyc' = 0 /\ resub' = rsb /\ batch' = b
  /\ home' = home \cup {[it |-> i, pos |-> k, id |-> b[k].id] : k \in Due(b)}
  /\ raw' = Submitted(b, i, 0) /\ expct' = Cardinality(Due(b)) /\ nret' = 0 /\ olds' = <<>>
  /\ UNCHANGED <<cf, taken, q, first>>
Take(i, c) == /\ \E n \in DOMAIN raw : raw[n].id = i /\ c \in raw[n].labs /\ raw' = Without(raw, n)
              /\ taken' = taken \cup {c} /\ UNCHANGED <<cf, phase, it, cyc, resub, batch, home, q, expct, nret, first, olds>>
Give(n, c, ok) == /\ c \in taken /\ \A x \in q : x.n # n
                  /\ q' = q \cup {[n |-> n, it |-> c.it, pos |-> c.pos, ok |-> ok, done |-> FALSE, after |-> {x.n : x \in {y \in q : y.done}}]}
                  /\ UNCHANGED <<cf, phase, it, cyc, resub, batch, home, raw, taken, expct, nret, first, olds>>
Given(n) == /\ q' = {IF x.n = n THEN [x EXCEPT !.done = TRUE] ELSE x : x \in q}
            /\ UNCHANGED <<cf, phase, it, cyc, resub, batch, home, raw, taken, expct, nret, first, olds>>
Complete == Due(batch) = {}
Enough == cf.part > 0 /\ (nret = expct \/ nret * 100 >= cf.part * expct)
Looking == phase = "wait" /\ ~Complete /\ ~Enough
Fresh(x) == x.it = it /\ batch[x.pos].st = "due"
Late(x) == x.it # it /\ x.ok
Next1(x) == x \in q /\ \A y \in q : y.n \notin x.after
Pop(x) == /\ Looking /\ Next1(x)
          /\ q' = q \ {x} /\ (IF x.ok THEN first' = FALSE ELSE UNCHANGED first)
          /\ (IF Fresh(x) THEN batch' = [batch EXCEPT ![x.pos].st = IF x.ok THEN "ok" ELSE "err"] /\ nret' = nret + 1 ELSE UNCHANGED <<batch, nret>>)
          /\ (IF Late(x) /\ (\A k \in DOMAIN olds : <<olds[k].it, olds[k].pos>> # <<x.it, x.pos>>) THEN olds' = Append(olds, [it |-> x.it, pos |-> x.pos]) ELSE UNCHANGED olds)
          /\ UNCHANGED <<cf, phase, it, cyc, resub, home, raw, taken, expct>>
\* waiting is over
ByTimeout == Looking /\ ~cf.notimeout /\ ~first
Over == phase = "wait" /\ (~Looking \/ ByTimeout)
\* the configured number limits the submissions; the implementation may stop one earlier
Resubmit == /\ Over /\ ~Complete /\ resub /\ cyc < cf.maxr
            /\ cyc' = cyc + 1 /\ raw' = Submitted(batch, it, cyc + 1) /\ expct' = Cardinality(Due(batch)) /\ nret' = 0
            /\ UNCHANGED <<cf, phase, it, resub, batch, home, taken, q, first, olds>>
Return == /\ Over /\ (Complete \/ ~resub \/ cyc >= cf.maxr - 1)
          /\ phase' = "idle" /\ UNCHANGED <<cf, it, cyc, resub, batch, home, raw, taken, q, expct, nret, first, olds>>
\* the executor leaves its port and takes a new one
Reinit == /\ phase = "idle" /\ raw' = <<>> /\ taken' = {} /\ q' = {} /\ UNCHANGED <<cf, phase, it, cyc, resub, batch, home, expct, nret, first, olds>>
=============================================================================
