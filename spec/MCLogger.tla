------------------------------ MODULE MCLogger ------------------------------
(* Threads log under the logger's mutex, one target after the other (the mechanism); every message takes
   effect as if delivered at one moment (the guarantee: variable spec is the sequence of these moments). *)
EXTENDS Logger, FiniteSets, TLC
CONSTANTS NT, NM, Locked   \* threads, messages per thread; Locked = FALSE: without the mutex (must fail)
Kinds == {"log", "out"}
Confs == {[targets |-> << >>, dflt |-> "con"], [targets |-> <<"r0", "r1">>, dflt |-> "con"], [targets |-> <<"r0", "f0", "r0">>, dflt |-> "con"]}
Sinks == {"r0", "r1", "f0", "f0_a", "con", "out"}
T == 1..NT
VARIABLES conf, lock, msg, todo, cnt, sinks, spec
vars == <<conf, lock, msg, todo, cnt, sinks, spec>>
Init == /\ conf \in Confs /\ lock = 0 /\ msg = [t \in T |-> [id |-> 0]] /\ todo = [t \in T |-> << >>] /\ cnt = [t \in T |-> 0]
        /\ sinks = [s \in Sinks |-> << >>] /\ spec = << >>
Free(t) == msg[t].id = 0
Call(t) == /\ Free(t) /\ cnt[t] < NM /\ cnt' = [cnt EXCEPT ![t] = @ + 1]
           /\ \E h \in Kinds, s \in {"", "a"} : msg' = [msg EXCEPT ![t] = [id |-> t * 100 + cnt[t] + 1, how |-> h, src |-> IF h = "log" THEN s ELSE "", go |-> FALSE]]
           /\ UNCHANGED <<conf, lock, todo, sinks, spec>>
Enter(t) == /\ ~Free(t) /\ ~msg[t].go /\ (Locked => lock = 0) /\ lock' = (IF Locked THEN t ELSE 0)
            /\ msg' = [msg EXCEPT ![t].go = TRUE] /\ todo' = [todo EXCEPT ![t] = Dest(conf, msg[t])]
            /\ spec' = Append(spec, [id |-> msg[t].id, d |-> Dest(conf, msg[t])]) /\ UNCHANGED <<conf, cnt, sinks>>
Put(t) == /\ ~Free(t) /\ msg[t].go /\ todo[t] # << >> /\ sinks' = [sinks EXCEPT ![Head(todo[t])] = Append(@, msg[t].id)]
          /\ todo' = [todo EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<conf, lock, msg, cnt, spec>>
Leave(t) == /\ ~Free(t) /\ msg[t].go /\ todo[t] = << >> /\ lock' = 0 /\ msg' = [msg EXCEPT ![t] = [id |-> 0]] /\ UNCHANGED <<conf, todo, cnt, sinks, spec>>
Next == \E t \in T : Call(t) \/ Enter(t) \/ Put(t) \/ Leave(t)
Spec == Init /\ [][Next]_vars
RECURSIVE All(_, _)
All(s, q) == IF q = << >> THEN s ELSE All(Deliver(s, Head(q).d, Head(q).id), Tail(q))
Atomic == (\A t \in T : todo[t] = << >>) => sinks = All([s \in Sinks |-> << >>], spec)
\* every target that gets all messages has them in one order
SameOrder == conf.targets = <<"r0", "r1">> => IsPre(sinks["r1"], sinks["r0"])
OwnOrder == \A s \in Sinks : \A i, j \in DOMAIN sinks[s] : (i < j /\ sinks[s][i] \div 100 = sinks[s][j] \div 100) => sinks[s][i] <= sinks[s][j]
=============================================================================
