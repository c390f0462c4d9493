---------------------------- MODULE BrokerTrace -----------------------------
(* Conformance of recorded executions of GBrokerT / GBufferPortT, including the
   enrolment of consumers (names, start and shut-down, capability of full return). *)
EXTENDS TraceKit, Broker
Threads == 0..9
VARIABLES cons,     \* accepted consumers: sequence of [n |-> name, full |-> BOOLEAN]
          started, shut,   \* consumer instance -> how often started / shut down
          fin,
          emp, nop            \* thread -> during its call there was a moment at which it could rightly fail / there was no port at all
coVars == <<cons, started, shut, fin, emp, nop>>
vars == <<kitVars, brVars, coVars>>
Init == KitInit /\ InitBr(Threads, Traces[tid].cfg.exact, [ports |-> Traces[tid].cfg.limit, cap |-> Traces[tid].cfg.cap]) /\ cons = <<>> /\ started = <<>> /\ shut = {} /\ fin = FALSE
        /\ emp = [t \in Threads |-> FALSE] /\ nop = [t \in Threads |-> FALSE]
AllFull == \A i \in 1..Len(cons) : cons[i].full
Num(b) == IF b THEN 1 ELSE 0
\* reasons to fail, looked at in every state during the call
MayFail(o) == CASE o.op = "take" -> live' \cup left' = {} \/ left' # {} \/ \E p \in live' : raw'[p] = <<>>
                [] o.op = "submit" -> Len(raw'[o.p]) >= limit.cap
                [] o.op = "collect" -> proc'[o.p] = <<>>
                [] o.op = "return" -> o.k \in DOMAIN home' => home'[o.k] \notin live'
                [] OTHER -> FALSE
Watch == IF exact THEN UNCHANGED <<emp, nop>>
         ELSE /\ emp' = [t \in Threads |-> op'[t].op # "none" /\ ((emp[t] /\ op[t].op # "none") \/ (~op'[t].lin /\ MayFail(op'[t])))]
              /\ nop' = [t \in Threads |-> op'[t].op # "none" /\ ((nop[t] /\ op[t].op # "none") \/ live' \cup left' = {})]
SameCo == UNCHANGED <<cons, started, shut, fin>> /\ Watch
\* enrolment reports whether all consumers enrolled so far can return everything
TEnrol == IsEvent("enrol")
          /\ (IF Cur.ok THEN Enrolled({Cur.p}) /\ Cur.full = (cons # <<>> /\ AllFull) ELSE EnrolRefused)
          /\ SameCo
TEnrolMany == IsEvent("enrolmany") /\ Cardinality({Cur.ps[i] : i \in 1..Len(Cur.ps)}) = Len(Cur.ps) /\ Enrolled({Cur.ps[i] : i \in 1..Len(Cur.ps)}) /\ SameCo
TLeave == IsEvent("leave") /\ Disconnect(Cur.p) /\ SameCo
\* v: the result this call is going to give (-100: it never returned)
TCall == IsEvent("call") /\ Call(Cur.t, Cur.op, Cur.p, Cur.k) /\ SameCo
\* the next return of thread t
RECURSIVE RetAt(_, _)
RetAt(t, i) == IF i > Len(Ev) THEN -100 ELSE IF Ev[i].e = "ret" /\ Ev[i].t = t THEN Ev[i].v ELSE RetAt(t, i + 1)
Expected(t) == RetAt(t, l)
\* a timed call that failed has waited its time (unless there was nowhere to wait)
TRetExact == IsEvent("ret") /\ exact /\ Return(Cur.t, Cur.v) /\ ((Cur.v = 0 /\ ~Cur.w /\ op[Cur.t].op # "return") => op[Cur.t].p = -2) /\ SameCo
TRetGood == IsEvent("ret") /\ ~exact /\ Cur.v # 0 /\ Return(Cur.t, Cur.v) /\ SameCo
TRetFail == IsEvent("ret") /\ ~exact /\ Cur.v = 0 /\ op[Cur.t].op # "none" /\ emp[Cur.t] /\ (~Cur.w /\ op[Cur.t].op # "return" => nop[Cur.t])
            /\ op' = [op EXCEPT ![Cur.t] = NoOp] /\ UNCHANGED <<live, left, used, raw, proc, home, seen, exact, firsts, limit>> /\ SameCo
TRet == TRetExact \/ TRetGood \/ TRetFail
\* steps at which calls take effect: only before a return that still needs one, and only with the result they are going to give
Needed == \/ Cur.e = "ret" /\ (IF Cur.v = 0 THEN ~emp[Cur.t] ELSE ~op[Cur.t].lin)
LinExact == More /\ exact /\ Cur.e \in {"ret", "stuck", "end"} /\ Silent /\ (\E t \in Threads : Internal(t)) /\ SameCo
LinOne(t) == LET v == Expected(t) IN
             \/ v = 1 /\ (LinSubmit(t) \/ LinReturn(t) \/ LinFirst(t))
             \/ v > 0 /\ proc # <<>> /\ op[t].op = "collect" /\ proc[op[t].p] # <<>> /\ Head(proc[op[t].p]) = v /\ LinCollect(t)
             \/ v > 0 /\ v \in DOMAIN home /\ op[t].op = "take" /\ raw[home[v]] # <<>> /\ Head(raw[home[v]]) = v /\ LinTake(t, home[v])
LinConc == More /\ ~exact /\ Needed /\ Silent /\ (\E t \in Threads : LinOne(t)) /\ SameCo
Lin == LinExact \/ LinConc
\* from here on everything happens in one thread
TDrain == IsEvent("drain") /\ (\A t \in Threads : Idle(t)) /\ exact' = TRUE /\ seen' = {}
          /\ UNCHANGED <<live, left, used, raw, proc, home, op, firsts, limit, coVars>>
\* consumers: one enrolment per broker, each name once, each started exactly once
RECURSIVE Accept(_, _)
Accept(acc, s) == IF s = <<>> THEN acc
                  ELSE Accept(IF \E i \in 1..Len(acc) : acc[i].n = Head(s).n THEN acc ELSE Append(acc, Head(s)), Tail(s))
TConsumers == IsEvent("consumers") /\ UNCHANGED <<brVars, shut, fin, emp, nop>>
              /\ IF cons # <<>> THEN Cur.started = <<>> /\ UNCHANGED <<cons, started>>
                 ELSE /\ cons' = Accept(<<>>, Cur.offered)
                      /\ Cur.started = [i \in 1..Len(cons') |-> cons'[i].id]
                      /\ started' = Cur.started
TAsk == IsEvent("ask") /\ UNCHANGED <<brVars, coVars>>
        /\ Cur.has = (cons # <<>>) /\ (Cur.has => Cur.full = AllFull)
\* shutting down reaches every accepted consumer exactly once and no other
TFinal == IsEvent("finalize") /\ UNCHANGED <<cons, started, emp, nop>>
          /\ Cur.shut = (IF fin THEN <<>> ELSE started)
          /\ fin' = TRUE /\ shut' = shut
          /\ live' = {} /\ left' = {} /\ UNCHANGED <<used, raw, proc, home, op, seen, exact, firsts, limit>>
TStuck == IsEvent("stuck") /\ (\A t \in Threads : BlockedRightly(t)) /\ UNCHANGED <<brVars, coVars>>
TEnd == IsEvent("end") /\ (\A t \in Threads : Idle(t)) /\ (Cur.drained => NothingLeft) /\ UNCHANGED <<brVars, coVars>>
Next == TEnrol \/ TEnrolMany \/ TLeave \/ TCall \/ TRet \/ Lin \/ TDrain \/ TConsumers \/ TAsk \/ TFinal \/ TStuck \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
