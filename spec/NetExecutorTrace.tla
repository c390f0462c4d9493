-------------------------- MODULE NetExecutorTrace --------------------------
(* Conformance of GBrokerExecutorT with copying, late, duplicating and losing consumers (virtual time, units of 0.1 ms).
   Looking at the queue, submitting again and giving up are not logged; they are inserted right before the event that needs them. *)
EXTENDS TraceKit, NetExecutor
VARIABLES port,    \* id of the current port, once known
          tm       \* [call, take: time of the call and of the first take in it, maxp: longest processing, to: lower bound of the time-out]
vars == <<kitVars, nVars, port, tm>>
SlackT == 20
Init == KitInit /\ InitN([notimeout |-> Traces[tid].cfg.notimeout, part |-> Traces[tid].cfg.part, maxr |-> Traces[tid].cfg.maxr]) /\ port = -1
        /\ tm = [call |-> 0, take |-> -1, maxp |-> 0, to |-> 0, gt |-> [c \in {} |-> 0]]
Name(s) == CASE s = "DO_PROCESS" -> "due" [] s = "PROCESSED" -> "ok" [] s = "DO_IGNORE" -> "ign" [] OTHER -> "err"
Items(b) == [k \in DOMAIN b |-> [id |-> b[k].id, st |-> Name(b[k].st)]]
NextIt == IF Cur.ext >= 0 THEN Cur.ext ELSE it + 1
TInit == IsEvent("init") /\ UNCHANGED <<nVars, port, tm>>
TCall == /\ IsEvent("call") /\ Call(NextIt, Cur.resub, Items(Cur.items)) /\ tm' = [tm EXCEPT !.call = Cur.t, !.take = -1] /\ UNCHANGED port
\* items of a port that was given up are nobody's business

CopyOf == [it |-> Cur.it, pos |-> Cur.pos + 1, rs |-> Cur.rs]
TTake == /\ IsEvent("take")
         /\ \/ Cur.port < port /\ UNCHANGED <<nVars, port, tm>>
            \/ Cur.port >= port /\ Take(Cur.id, CopyOf) /\ [it |-> Cur.it, pos |-> Cur.pos + 1, id |-> Cur.id] \in home /\ port' = Cur.port
               /\ tm' = (IF tm.take < 0 /\ Cur.it = it THEN [tm EXCEPT !.take = Cur.t] ELSE tm)
TGive == /\ IsEvent("give")
         /\ IF Cur.port < port THEN UNCHANGED <<nVars, port, tm>>
            ELSE Give(Cur.c, CopyOf, Cur.st = "PROCESSED") /\ Cur.res = (IF Cur.st = "PROCESSED" THEN Cur.id * 7 ELSE -7) /\ UNCHANGED port
                 /\ tm' = [tm EXCEPT !.gt = (Cur.c :> [t |-> Cur.t, d |-> Cur.dt]) @@ tm.gt]
TLost == IsEvent("lost") /\ UNCHANGED <<nVars, port, tm>>
TGave == IsEvent("gave") /\ Given(Cur.c) /\ UNCHANGED <<port, tm>>
TGone == IsEvent("gone") /\ Cur.port < port /\ UNCHANGED <<nVars, port, tm>>
\* what a take or a return needs: looking at returned items, and submitting again
Wanted == /\ More /\ phase = "wait"
          /\ \/ Cur.e = "ret"
             \/ Cur.e = "take" /\ Cur.port >= port /\ Cur.it = it /\ Cur.rs > cyc
Max2(a, b) == IF a > b THEN a ELSE b
SPop == /\ Wanted /\ Silent /\ UNCHANGED port
        /\ \E x \in q :
           /\ Pop(x)
           /\ LET g == tm.gt[x.n]  mp == Max2(tm.maxp, g.d)  el == Max2(0, g.t - tm.take) IN
              tm' = [tm EXCEPT !.maxp = mp,
                               !.to = IF x.ok /\ nret' > 0 THEN IF tm.take < 0 \/ cyc > 0 THEN 0 ELSE (Cfg.wf * (((el * expct) \div nret') + mp)) \div 10 ELSE tm.to]
SResubmit == Wanted /\ Resubmit /\ Silent /\ UNCHANGED port /\ tm' = [tm EXCEPT !.to = 0]
Failed == {k \in DOMAIN batch : batch[k].st = "err"}
TRet == /\ IsEvent("ret") /\ Return /\ UNCHANGED <<port, tm>>
        /\ Items(Cur.items) = batch
        /\ \A k \in DOMAIN batch : Cur.items[k].res = (IF batch[k].st = "ok" THEN batch[k].id * 7 ELSE -7)
        /\ Cur.complete = Complete
        /\ Cur.err = (Failed # {}) /\ Cur.nnr = Cardinality(Due(batch)) /\ Cur.ner = Cardinality(Failed) /\ Cur.nold = Len(Cur.old)
        \* late results: each once, those of earlier calls only, with their own content
        /\ Len(Cur.old) = Len(olds)
        /\ {[it |-> Cur.old[k].it, pos |-> Cur.old[k].pos + 1] : k \in DOMAIN Cur.old} = {olds[k] : k \in DOMAIN olds}
        /\ \A k \in DOMAIN Cur.old : Cur.old[k].st = "PROCESSED" /\ Cur.old[k].res = Cur.old[k].id * 7 /\ [it |-> Cur.old[k].it, pos |-> Cur.old[k].pos + 1, id |-> Cur.old[k].id] \in home
        \* giving up for lateness: not before the time-out
        /\ (Looking /\ cyc = 0 /\ Cur.t < 1000000) => Cur.t + SlackT >= tm.call + tm.to
TReinit == IsEvent("reinit") /\ Reinit /\ port' = port + 1 /\ tm' = [tm EXCEPT !.gt = [c \in {} |-> 0]]
TEnd == IsEvent("end") /\ UNCHANGED <<nVars, port, tm>>
Next == TInit \/ TCall \/ TTake \/ TGive \/ TLost \/ TGave \/ TGone \/ SPop \/ SResubmit \/ TRet \/ TReinit \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
