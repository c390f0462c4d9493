--------------------------- MODULE BoundedBuffer ---------------------------
(* The bounded buffer seen through its public calls.  Each call is three
   actions: Call (the thread enters), one linearisation step (Put, Get, Refuse or
   Look, internal), and Return (the thread leaves with the result).  Blocking
   calls have no Refuse step. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES q,        \* accepted items, head = oldest
          pend,     \* thread -> call in progress [op, mode, v] or NoCall
          res,      \* thread -> result of its call once it has taken effect
          cap       \* capacity, 0 = unbounded
bbVars == <<q, pend, res, cap>>

NoCall == [op |-> "none", mode |-> "none", v |-> 0]
NoRes == [ok |-> FALSE, v |-> -1, set |-> FALSE]

Full == cap > 0 /\ Len(q) >= cap
Empty == q = <<>>

InitBB(c, threads) == /\ q = <<>> /\ cap = c
                      /\ pend = [t \in threads |-> NoCall]
                      /\ res = [t \in threads |-> NoRes]

Busy(t) == pend[t] # NoCall
Open(t) == Busy(t) /\ ~res[t].set          \* called, not yet taken effect

Call(t, op, mode, v) ==
    /\ ~Busy(t)
    /\ pend' = [pend EXCEPT ![t] = [op |-> op, mode |-> mode, v |-> v]]
    /\ UNCHANGED <<q, res, cap>>

Put(t) == /\ Open(t) /\ pend[t].op = "push" /\ ~Full
          /\ q' = Append(q, pend[t].v)
          /\ res' = [res EXCEPT ![t] = [ok |-> TRUE, v |-> pend[t].v, set |-> TRUE]]
          /\ UNCHANGED <<pend, cap>>

Get(t) == /\ Open(t) /\ pend[t].op = "pop" /\ ~Empty
          /\ q' = Tail(q)
          /\ res' = [res EXCEPT ![t] = [ok |-> TRUE, v |-> Head(q), set |-> TRUE]]
          /\ UNCHANGED <<pend, cap>>

\* a non-blocking call gives up; a timed one may do so only when its time is over
Refuse(t) == /\ Open(t) /\ pend[t].mode \in {"try", "wait"}
             /\ \/ pend[t].op = "push" /\ Full
                \/ pend[t].op = "pop" /\ Empty
             /\ res' = [res EXCEPT ![t] = [ok |-> FALSE, v |-> -1, set |-> TRUE]]
             /\ UNCHANGED <<q, pend, cap>>

Look(t) == /\ Open(t) /\ pend[t].op \in {"size", "space", "empty", "notempty"}
           /\ res' = [res EXCEPT ![t] = [ok |-> TRUE, set |-> TRUE,
                        v |-> CASE pend[t].op = "size" -> Len(q)
                                [] pend[t].op = "space" -> cap - Len(q)
                                [] pend[t].op = "empty" -> IF Empty THEN 1 ELSE 0
                                [] OTHER -> IF Empty THEN 0 ELSE 1]]
           /\ UNCHANGED <<q, pend, cap>>

Return(t, ok, v) == /\ Busy(t) /\ res[t].set /\ res[t].ok = ok
                    /\ (ok => res[t].v = v)
                    /\ pend' = [pend EXCEPT ![t] = NoCall]
                    /\ res' = [res EXCEPT ![t] = NoRes]
                    /\ UNCHANGED <<q, cap>>

\* The call can take effect now (used to judge a state in which nobody can run).
Enabled(t) == /\ Open(t)
              /\ CASE pend[t].op = "push" -> ~Full
                   [] pend[t].op = "pop" -> ~Empty
                   [] OTHER -> TRUE
\* Nobody can run: every started call is a blocking one whose condition is false.
Stuck(threads) == \A t \in threads : Busy(t) =>
                     /\ Open(t) /\ ~Enabled(t) /\ pend[t].mode = "block"
=============================================================================
