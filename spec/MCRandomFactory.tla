-------------------------- MODULE MCRandomFactory --------------------------
(* Bounded model of the inner workings: producers fill packages with fresh
   numbers, consumers draw from them and return them partly or fully used,
   producers refresh the used part only.  Numbers are 1, 2, 3, ... *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Producers, Consumers, Size, Cap, MaxNum
VARIABLES next, fresh, ret, hold, pos, pc, cur, delivered, twice
vars == <<next, fresh, ret, hold, pos, pc, cur, delivered, twice>>
\* a package is [nums, pos]
New(k) == [i \in 1..Size |-> k + i]
Init == /\ next = 0 /\ fresh = <<>> /\ ret = <<>> /\ pos = 0
        /\ hold = [c \in 1..Consumers |-> <<>>]     \* <<>> or <<package>>
        /\ pc = [p \in 1..Producers |-> "take"] /\ cur = [p \in 1..Producers |-> <<>>]
        /\ delivered = {} /\ twice = FALSE
Take(p) == /\ pc[p] = "take" /\ pc' = [pc EXCEPT ![p] = "put"]
           /\ IF ret # <<>>
              THEN /\ LET k == Head(ret) IN cur' = [cur EXCEPT ![p] = <<[nums |-> [i \in 1..Size |-> IF i <= k.pos THEN next + i ELSE k.nums[i]], pos |-> 0]>>] /\ next' = next + k.pos
                   /\ ret' = Tail(ret)
              ELSE cur' = [cur EXCEPT ![p] = <<[nums |-> New(next), pos |-> 0]>>] /\ next' = next + Size /\ UNCHANGED ret
           /\ next' <= MaxNum
           /\ UNCHANGED <<fresh, hold, pos, delivered, twice>>
Put(p) == /\ pc[p] = "put" /\ Len(fresh) < Cap /\ fresh' = Append(fresh, cur[p][1]) /\ cur' = [cur EXCEPT ![p] = <<>>] /\ pc' = [pc EXCEPT ![p] = "take"]
          /\ UNCHANGED <<next, ret, hold, pos, delivered, twice>>
Get(c) == /\ hold[c] = <<>> /\ fresh # <<>> /\ hold' = [hold EXCEPT ![c] = <<Head(fresh)>>] /\ fresh' = Tail(fresh)
          /\ UNCHANGED <<next, ret, pos, pc, cur, delivered, twice>>
Draw(c) == /\ hold[c] # <<>> /\ hold[c][1].pos < Size
           /\ LET k == hold[c][1] v == k.nums[k.pos + 1] IN
              /\ hold' = [hold EXCEPT ![c][1].pos = k.pos + 1]
              /\ delivered' = delivered \cup {v} /\ twice' = (twice \/ v \in delivered)
           /\ UNCHANGED <<next, fresh, ret, pos, pc, cur>>
Give(c) == /\ hold[c] # <<>> /\ hold' = [hold EXCEPT ![c] = <<>>]
           /\ ret' = (IF Len(ret) < Cap THEN Append(ret, hold[c][1]) ELSE ret)
           /\ UNCHANGED <<next, fresh, pos, pc, cur, delivered, twice>>
Next == (\E p \in 1..Producers : Take(p) \/ Put(p)) \/ (\E c \in 1..Consumers : Get(c) \/ Draw(c) \/ Give(c))
Spec == Init /\ [][Next]_vars
Once == ~twice
Where == {hold[c][1] : c \in {x \in 1..Consumers : hold[x] # <<>>}}
Apart == \A a, b \in 1..Consumers : a # b /\ hold[a] # <<>> /\ hold[b] # <<>> =>
            {hold[a][1].nums[i] : i \in 1..Size} \cap {hold[b][1].nums[i] : i \in 1..Size} = {}
Fresh == \A i \in 1..Len(fresh) : fresh[i].pos = 0 /\ \A j \in 1..Size : fresh[i].nums[j] \notin delivered
=============================================================================
