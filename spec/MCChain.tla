------------------------------ MODULE MCChain ------------------------------
(* All chains of two or three stages over few evaluations. *)
EXTENDS Chain
CONSTANTS MaxE, Vals, Stages, MaxGo, MaxP
MCStages == {<<1, 2>>, <<1>>, <<1, 1>>, <<1, 2, 1>>}
VARIABLES nums,   \* iteration numbers of the current chain, in order
          gos, spent
vars == <<cVars, nums, gos, spent>>
Settings == {[keep |-> 1000, steps |-> 0, max |-> 2, stall |-> 0, nrec |-> 1], [keep |-> 1, steps |-> 0, max |-> 1, stall |-> 1, nrec |-> 2], [keep |-> 1, steps |-> 1, max |-> 0, stall |-> 0, nrec |-> 1]}
Seqs(S, n) == UNION {[1..m -> S] : m \in 1..n}
Init == /\ \E a \in [1..2 -> Settings], o \in Stages, b \in BOOLEAN : InitC(a, o, b)
        /\ nums = << >> /\ gos = 0 /\ spent = 0
MGo == \E off \in 0..1 : gos < MaxGo /\ Go(off, IF gos = 0 THEN <<-1>> ELSE pool) /\ nums' = << >> /\ gos' = gos + 1 /\ UNCHANGED <<glob, pos, spent>>
MStart == \E p \in [1..Len(pool) -> ElemsOf(pool)] : Start(p) /\ UNCHANGED <<nums, gos, spent>>
N == Cardinality(DOMAIN G)
MEval == /\ ph = "in" /\ spent < MaxE /\ \E o \in (ElemsOf(pop) \cup fresh), f \in Vals : Eval(N + 1, o, f) /\ spent' = spent + 1 /\ UNCHANGED <<nums, gos>>
\* an iteration may evaluate nothing if something is known already
MCycle == /\ ph = "in" /\ (fresh # {} \/ KnownOf(pool) # {}) /\ (spent > 0 \/ algs[K].steps = 0)
          /\ LET C == ElemsOf(glob[K]) \cup KnownOf(pool) \cup fresh
                 n == Lesser(algs[K].nrec, Cardinality(C))
             IN \E g \in [1..n -> C] : Cycle(MinOf(G, fresh \cup KnownOf(pool)), g, <<CHOOSE x \in C : G[x] = MinOf(G, C)>>)
          /\ nums' = Append(nums, it) /\ spent' = 0 /\ UNCHANGED gos
MFin == \E p \in Seqs((ElemsOf(pop) \cup fresh) \cap DOMAIN G, MaxP) : Fin(p) /\ UNCHANGED <<nums, gos, spent>>
MDone == /\ ph = "over" /\ \E r \in [1..Len(pool) -> ElemsOf(pool)] : Done(r)
         /\ UNCHANGED <<nums, gos, spent>>
Stop == ph = "out" /\ gos = MaxGo /\ UNCHANGED vars
Next == MGo \/ MStart \/ MEval \/ MCycle \/ MFin \/ MDone \/ Stop
Spec == Init /\ [][Next]_vars
\* iterations are numbered without gap or repetition across the stages
Unbroken == \A i \in 1..(Len(nums) - 1) : nums[i + 1] = nums[i] + 1
Counted == nums # << >> => it = nums[Len(nums)] + 1
\* nothing better than the result has been seen
Result == (ph = "out" /\ gos > 0 /\ best) => G[pool[1]] <= MinOf(G, seen)
\* what is handed on is what was seen or known
Handed == ph = "ready" /\ st > 1 => ElemsOf(pool) \subseteq DOMAIN G /\ pool # << >>
Own == \A k \in DOMAIN algs : cnt[k][3] <= cnt[k][1] /\ cnt[k][2] >= cnt[k][3] /\ (ph = "out" => cnt[k][1] = cnt[k][3])
Visits == ph = "out" /\ gos > 0 => \A k \in DOMAIN algs : cnt[k][1] = gos * (IF Times(order, k) > 0 THEN 1 ELSE 0)
Ran == ph = "fin" => ran >= 1
Inv == Unbroken /\ Counted /\ Result /\ Handed /\ Own /\ Visits /\ Ran
=============================================================================
