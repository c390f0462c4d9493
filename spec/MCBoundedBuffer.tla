-------------------------- MODULE MCBoundedBuffer --------------------------
(* Exhaustive check of the buffer specification for small constants, with the
   property as stated in C01 as invariants over observation variables. *)
EXTENDS BoundedBuffer, Integers, TLC
CONSTANTS Threads, MaxItems, Capacity
VARIABLES put, got, nitems  \* accepted / delivered items in order of effect
vars == <<bbVars, put, got, nitems>>
Init == InitBB(Capacity, Threads) /\ put = <<>> /\ got = <<>> /\ nitems = 0
Modes == {"block", "wait", "try"}
Next == \E t \in Threads :
   \/ \E m \in Modes : nitems < MaxItems /\ Call(t, "push", m, nitems + 1) /\ nitems' = nitems + 1 /\ UNCHANGED <<put, got>>
   \/ \E m \in Modes : Call(t, "pop", m, 0) /\ UNCHANGED <<put, got, nitems>>
   \/ Put(t) /\ put' = Append(put, pend[t].v) /\ UNCHANGED <<got, nitems>>
   \/ Get(t) /\ got' = Append(got, Head(q)) /\ UNCHANGED <<put, nitems>>
   \/ (Refuse(t) \/ Look(t)) /\ UNCHANGED <<put, got, nitems>>
   \/ \E ok \in BOOLEAN, v \in -1..MaxItems : Return(t, ok, v) /\ UNCHANGED <<put, got, nitems>>
Spec == Init /\ [][Next]_vars
         /\ \A t \in Threads : WF_vars(Put(t) /\ put' = Append(put, pend[t].v) /\ UNCHANGED <<got, nitems>>)
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Fifo == IsPrefix(got, put) /\ put = got \o q                 \* exactly once, in order of acceptance
WithinCapacity == Capacity > 0 => Len(q) <= Capacity
Distinct == \A i, j \in 1..Len(put) : put[i] = put[j] => i = j
NoEffectOnFailure == \A t \in Threads : Busy(t) /\ res[t].set /\ ~res[t].ok /\ pend[t].op = "push"
                        => \A i \in 1..Len(put) : put[i] # pend[t].v
=============================================================================
