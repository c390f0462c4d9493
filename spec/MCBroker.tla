------------------------------ MODULE MCBroker ------------------------------
(* Exhaustive check of the broker specification: items are never duplicated or
   lost, results only reach the port of their item, nobody is bypassed. *)
EXTENDS Broker, TLC
CONSTANTS Subs, Cons, MaxItems, MaxPorts, Exact, Cap
VARIABLES held,      \* consumer -> items it holds
          got,       \* port -> results collected, in order
          bypass,    \* port -> requests served elsewhere while it was waiting
          n
vars == <<brVars, held, got, bypass, n>>
Threads == Subs \cup Cons
Init == InitBr(Threads, Exact, [ports |-> MaxPorts, cap |-> Cap]) /\ held = [c \in Cons |-> {}] /\ got = <<>> /\ bypass = <<>> /\ n = 0
Keep == UNCHANGED <<held, got, bypass, n>>
PortOf(s) == s   \* submitter s owns port s
Live == {s \in Subs : s \in live}
Next ==
  \/ \E s \in Subs : s \notin used /\ Enrolled({s}) /\ UNCHANGED <<held, n>> /\ got' = Put(got, s, <<>>) /\ bypass' = Put(bypass, s, 0)
  \/ \E s \in Live : Idle(s) /\ Disconnect(s) /\ Keep
  \/ \E s \in Live : n < MaxItems /\ Call(s, "submit", s, n + 1) /\ n' = n + 1 /\ UNCHANGED <<held, got, bypass>>
  \/ ~Exact /\ \E s \in Live : Call(s, "collect", s, 0) /\ Keep
  \/ \E c \in Cons : Call(c, "take", -1, 0) /\ Keep
  \/ ~Exact /\ \E c \in Cons : \E k \in held[c] : Call(c, "return", -1, k) /\ held' = [held EXCEPT ![c] = @ \ {k}] /\ UNCHANGED <<got, bypass, n>>
  \/ \E t \in Threads : (LinSubmit(t) \/ LinSubmitFail(t) \/ LinReturn(t) \/ LinDiscard(t) \/ LinCollect(t) \/ LinNoResult(t)) /\ Keep
  \/ \E c \in Cons, p \in live \cup left : LinTake(c, p) /\ UNCHANGED <<held, got, n>>
        /\ bypass' = [q \in DOMAIN bypass |-> IF q = p THEN 0 ELSE IF q \in live /\ raw[q] # <<>> THEN bypass[q] + 1 ELSE 0]
  \/ \E c \in Cons, p \in live \cup left : LinNothing(c, p) /\ Keep
  \/ \E t \in Threads : op[t].lin /\ Return(t, op[t].r)
        /\ held' = (IF t \in Cons /\ op[t].op = "take" /\ op[t].r > 0 THEN [held EXCEPT ![t] = @ \cup {op[t].r}] ELSE held)
        /\ got' = (IF op[t].op = "collect" /\ op[t].r > 0 THEN [got EXCEPT ![t] = Append(@, op[t].r)] ELSE got)
        /\ UNCHANGED <<bypass, n>>
Spec == Init /\ [][Next]_vars
Where(k) == {<<"raw", p, i>> : p \in DOMAIN raw, i \in 1..MaxItems} \* positions
Places(k) == Cardinality({<<p, i>> \in (DOMAIN raw) \X (1..MaxItems) : i <= Len(raw[p]) /\ raw[p][i] = k})
           + Cardinality({<<p, i>> \in (DOMAIN proc) \X (1..MaxItems) : i <= Len(proc[p]) /\ proc[p][i] = k})
           + Cardinality({<<p, i>> \in (DOMAIN got) \X (1..MaxItems) : i <= Len(got[p]) /\ got[p][i] = k})
           + Cardinality({c \in Cons : k \in held[c]})
           + Cardinality({t \in Threads : op[t].op = "take" /\ op[t].lin /\ op[t].r = k})
           + Cardinality({t \in Threads : op[t].op = "collect" /\ op[t].lin /\ op[t].r = k})
           + Cardinality({t \in Threads : op[t].op = "return" /\ ~op[t].lin /\ op[t].k = k})
AtMostOnce == \A k \in DOMAIN home : Places(k) <= 1
NotLost == \A k \in DOMAIN home : home[k] \in live => Places(k) = 1
OwnPort == \A p \in DOMAIN proc : (\A i \in 1..Len(proc[p]) : home[proc[p][i]] = p) /\ (p \in DOMAIN got => \A i \in 1..Len(got[p]) : home[got[p][i]] = p)
Fair == Exact => \A p \in DOMAIN bypass : bypass[p] <= 2 * MaxPorts
=============================================================================
