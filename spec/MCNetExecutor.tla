---------------------------- MODULE MCNetExecutor ----------------------------
(* All behaviours of NetExecutor for small batches, with lost, late and repeated copies. *)
EXTENDS NetExecutor
CONSTANTS Positions, Calls, MaxR, Gives
VARIABLES gen,      \* ids used so far
          ng,       \* returns so far
          came,     \* <<it, pos>> of every successful return that was looked at
          ftaken    \* copies given at least once
mVars == <<nVars, gen, ng, came, ftaken>>
Cfgs == [notimeout : BOOLEAN, part : {0, 50}, maxr : {MaxR}]
Init == (\E c \in Cfgs : InitN(c)) /\ gen = 0 /\ ng = 0 /\ came = {} /\ ftaken = {}
\* items not processed in the last call may be submitted again, other places get new items or are not due
NewBatch(f) == [k \in 1..Positions |-> CASE f[k] = "new" -> [id |-> gen + k, st |-> "due"]
                                         [] f[k] = "ign" -> [id |-> gen + k, st |-> "ign"]
                                         [] OTHER -> IF k \in DOMAIN batch THEN [batch[k] EXCEPT !.st = IF @ = "err" THEN "due" ELSE @] ELSE [id |-> gen + k, st |-> "due"]]
MCall == /\ it + 1 < Calls /\ \E f \in [1..Positions -> {"new", "ign", "keep"}], r \in BOOLEAN : Call(it + 1, r, NewBatch(f))
         /\ gen' = gen + Positions /\ UNCHANGED <<ng, came, ftaken>>
Step(A) == A /\ UNCHANGED <<gen, ng, came, ftaken>>
MTake == \E n \in DOMAIN raw : \E c \in raw[n].labs : Step(Take(raw[n].id, c))
MGive == /\ ng < Gives /\ \E c \in taken, ok \in BOOLEAN : Give(ng + 1, c, ok) /\ ftaken' = ftaken \cup {c}
         /\ ng' = ng + 1 /\ UNCHANGED <<gen, came>>
MGiven == \E x \in q : ~x.done /\ Step(Given(x.n))
MPop == \E x \in q : Pop(x) /\ came' = (IF x.ok THEN came \cup {<<x.it, x.pos>>} ELSE came) /\ UNCHANGED <<gen, ng, ftaken>>
MEnd == Step(Resubmit) \/ Step(Return)
Next == MCall \/ MTake \/ MGive \/ MGiven \/ MPop \/ MEnd \/ Step(Reinit)
Spec == Init /\ [][Next]_mVars
\* consumers that lose nothing: every copy taken comes back once
MGiveOnce == \E c \in taken \ ftaken, ok \in BOOLEAN : Give(ng + 1, c, ok) /\ ftaken' = ftaken \cup {c} /\ ng' = ng + 1 /\ UNCHANGED <<gen, came>>
NextLive == MCall \/ MTake \/ MGiveOnce \/ MGiven \/ MPop \/ MEnd
SpecLive == Init /\ [][NextLive]_mVars /\ WF_mVars(MTake) /\ WF_mVars(MGiveOnce) /\ WF_mVars(MGiven) /\ WF_mVars(MPop) /\ WF_mVars(MEnd)
Returns == phase = "wait" ~> phase = "idle"
\* an item is reported as processed only if its own result came back
OwnResult == [][\A k \in DOMAIN batch' : (batch'[k].st \in {"ok", "err"} /\ phase = "wait" /\ batch[k].st = "due") => \E x \in q : x.it = it /\ x.pos = k /\ batch'[k].id = batch[k].id]_mVars
Credible == \A k \in DOMAIN batch : batch[k].st = "ok" => \E i \in 0..it : <<i, k>> \in came /\ [it |-> i, pos |-> k, id |-> batch[k].id] \in home
\* late results are never of the current call, and each is handed over once
Olds == /\ \A k \in DOMAIN olds : olds[k].it < it /\ <<olds[k].it, olds[k].pos>> \in came
        /\ \A k, l \in DOMAIN olds : k # l => olds[k] # olds[l]
Labels == /\ \A c \in taken : \E h \in home : h.it = c.it /\ h.pos = c.pos
          /\ \A n \in DOMAIN raw : raw[n].labs # {} /\ \A c \in raw[n].labs : [it |-> c.it, pos |-> c.pos, id |-> raw[n].id] \in home
Bounded == cyc <= cf.maxr /\ nret <= expct
\* giving up an incomplete batch: never without a time-out, unless the configured share has returned, and never before anything was ever processed
GivesUp == [][(phase = "wait" /\ phase' = "idle" /\ Due(batch) # {}) => (Enough \/ (~cf.notimeout /\ ~first))]_mVars
=============================================================================
