------------------------------- MODULE Broker -------------------------------
(* The broker between submitters (each owning one port with a queue of raw and a
   queue of processed items) and consumers.  Calls that may overlap have a call,
   an internal step at which they take effect, and a return.
   Items are records/integers; home[k] is the port an item belongs to. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES live,     \* ports whose submitter is connected
          left,     \* ports whose submitter has disconnected and whose queues may still exist
          used,     \* port identifiers given out so far
          raw,      \* port -> waiting items, oldest first
          proc,     \* port -> returned items, oldest first
          home,     \* item -> port
          op,       \* thread -> call in progress
          seen,     \* ports a request has looked at in the current round (sequential mode)
          exact,    \* sequential mode: the round-robin is observable
          firsts,   \* ports from which at least one item has been taken
          limit     \* largest number of ports
brVars == <<live, left, used, raw, proc, home, op, seen, exact, firsts, limit>>

NoOp == [op |-> "none", p |-> -1, k |-> -1, lin |-> FALSE, r |-> -1]
InitBr(threads, ex, lim) ==   \* lim: [ports, cap]
    /\ live = {} /\ left = {} /\ used = {} /\ raw = [p \in {} |-> <<>>] /\ proc = [p \in {} |-> <<>>]
    /\ home = [k \in {} |-> 0] /\ op = [t \in threads |-> NoOp] /\ seen = {} /\ exact = ex /\ firsts = {} /\ limit = lim

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

\* a new port: an identifier nobody has had before
Enrolled(ids) == /\ ids \cap used = {}
                 /\ Cardinality(live) + Cardinality(ids) <= limit.ports
                 /\ live' = live \cup ids /\ used' = used \cup ids
                 /\ raw' = [y \in DOMAIN raw \cup ids |-> IF y \in ids THEN <<>> ELSE raw[y]]
                 /\ proc' = [y \in DOMAIN proc \cup ids |-> IF y \in ids THEN <<>> ELSE proc[y]]
                 /\ seen' = {}
                 /\ UNCHANGED <<left, home, op, exact, firsts, limit>>
\* a refused enrolment changes nothing and is only justified by the limit
EnrolRefused == Cardinality(live) >= limit.ports /\ seen' = {} /\ UNCHANGED <<live, left, used, raw, proc, home, op, exact, firsts, limit>>
Disconnect(p) == /\ p \in live /\ live' = live \ {p} /\ left' = left \cup {p}
                 /\ seen' = (IF live \ {p} \subseteq seen THEN {} ELSE seen)
                 /\ UNCHANGED <<used, raw, proc, home, op, exact, firsts, limit>>

Idle(t) == op[t] = NoOp
Call(t, what, p, k) == Idle(t) /\ op' = [op EXCEPT ![t] = [op |-> what, p |-> p, k |-> k, lin |-> FALSE, r |-> -1]]
                       /\ UNCHANGED <<live, left, used, raw, proc, home, seen, exact, firsts, limit>>
Open(t, what) == op[t].op = what /\ ~op[t].lin
Done(t, v) == op' = [op EXCEPT ![t].lin = TRUE, ![t].r = v]

\* a submitter puts an item into its own port
LinSubmit(t) == /\ Open(t, "submit") /\ op[t].k \notin DOMAIN home /\ Len(raw[op[t].p]) < limit.cap
                /\ raw' = [raw EXCEPT ![op[t].p] = Append(@, op[t].k)]
                /\ home' = Put(home, op[t].k, op[t].p)
                /\ Done(t, 1) /\ UNCHANGED <<live, left, used, proc, seen, exact, firsts, limit>>
\* a (timed) submission fails only for lack of space, and without effect
LinSubmitFail(t) == /\ Open(t, "submit") /\ Len(raw[op[t].p]) >= limit.cap
                    /\ Done(t, 0) /\ UNCHANGED <<live, left, used, raw, proc, home, seen, exact, firsts, limit>>
\* a consumer's request looks at one port; in a round every connected port is looked at once
Pick(p) == /\ p \in live \cup left
           /\ ~exact \/ p \notin seen
           /\ seen' = IF ~exact \/ live \subseteq seen \cup {p} THEN {} ELSE seen \cup {p}
LinTake(t, p) == /\ Open(t, "take") /\ Pick(p) /\ raw[p] # <<>>
                 /\ raw' = [raw EXCEPT ![p] = Tail(@)]
                 /\ firsts' = firsts \cup {p}
                 /\ Done(t, Head(raw[p])) /\ UNCHANGED <<live, left, used, proc, home, exact, limit>>
\* the port looked at stayed empty (a port left behind may also have been skipped or cleared)
LinNothing(t, p) == /\ Open(t, "take")
                    /\ IF live \cup left = {} THEN UNCHANGED seen ELSE Pick(p) /\ (raw[p] = <<>> \/ p \in left)
                    /\ op' = [op EXCEPT ![t].lin = TRUE, ![t].r = 0, ![t].p = IF live \cup left = {} THEN -2 ELSE -1] /\ UNCHANGED <<live, left, used, raw, proc, home, exact, firsts, limit>>
\* a result goes to the port its item came from and to no other
LinReturn(t) == /\ Open(t, "return") /\ op[t].k \in DOMAIN home
                /\ home[op[t].k] \in live \cup left
                /\ proc' = [proc EXCEPT ![home[op[t].k]] = Append(@, op[t].k)]
                /\ Done(t, 1) /\ UNCHANGED <<live, left, used, raw, home, seen, exact, firsts, limit>>
\* ... and is discarded, with notice, when that port has gone
LinDiscard(t) == /\ Open(t, "return")
                 /\ op[t].k \in DOMAIN home => home[op[t].k] \notin live
                 /\ Done(t, 0) /\ UNCHANGED <<live, left, used, raw, proc, home, seen, exact, firsts, limit>>
\* a submitter collects from its own port
LinCollect(t) == /\ Open(t, "collect") /\ proc[op[t].p] # <<>>
                 /\ proc' = [proc EXCEPT ![op[t].p] = Tail(@)]
                 /\ Done(t, Head(proc[op[t].p])) /\ UNCHANGED <<live, left, used, raw, home, seen, exact, firsts, limit>>
LinNoResult(t) == /\ Open(t, "collect") /\ proc[op[t].p] = <<>>
                  /\ Done(t, 0) /\ UNCHANGED <<live, left, used, raw, proc, home, seen, exact, firsts, limit>>
\* waiting for the first retrieval from a port
LinFirst(t) == /\ Open(t, "first") /\ op[t].p \in firsts /\ Done(t, 1)
               /\ UNCHANGED <<live, left, used, raw, proc, home, seen, exact, firsts, limit>>
Return(t, v) == /\ op[t].op # "none" /\ op[t].lin /\ op[t].r = v
                /\ op' = [op EXCEPT ![t] = NoOp]
                /\ UNCHANGED <<live, left, used, raw, proc, home, seen, exact, firsts, limit>>
Internal(t) == \/ LinSubmit(t) \/ LinSubmitFail(t) \/ LinReturn(t) \/ LinDiscard(t) \/ LinCollect(t) \/ LinNoResult(t) \/ LinFirst(t)
               \/ \E p \in live \cup left : LinTake(t, p) \/ LinNothing(t, p)
               \/ live \cup left = {} /\ LinNothing(t, -1)
\* blocked calls in a state where nobody can run
BlockedRightly(t) == \/ Idle(t)
                     \/ Open(t, "collect") /\ proc[op[t].p] = <<>>
                     \/ Open(t, "first") /\ op[t].p \notin firsts
                     \/ Open(t, "submit") /\ Len(raw[op[t].p]) >= limit.cap
                     \/ Open(t, "take") /\ \E p \in live \cup left : raw[p] = <<>>   \* an untimed request waits at its port
NothingLeft == \A p \in live : raw[p] = <<>> /\ proc[p] = <<>>
=============================================================================
