-------------------------- MODULE ConfigFileTrace ---------------------------
(* Trace specification for drivers/d_conf.cpp.  A parse takes effect at one moment between its call
   and its return (several builders parse at once). *)
EXTENDS ConfigFile, TraceKit
VARIABLES files, D, P,
          pend,  \* per builder: [f, done, r]
          cl     \* the command line being parsed
vars == <<files, D, P, pend, cl, tid, l>>
Opts == Cfg.opts
B == 1..Cfg.nb
Defs == [i \in DOMAIN Opts |-> Opts[i].def]
Idle == [f |-> 0, done |-> FALSE]
Init == KitInit /\ files = [f \in DOMAIN Cfg.files |-> Absent] /\ D = [b \in B |-> Defs] /\ P = [b \in B |-> Defs]
        /\ pend = [b \in B |-> Idle] /\ cl = [on |-> FALSE]
Quiet == \A b \in B : pend[b].f = 0
Place(f) == Cfg.files[f]
TMade == IsEvent("made") /\ Cur.n = Len(Opts) /\ UNCHANGED <<files, D, P, pend, cl>>
AsFile(e) == IF e.kind = "ok" THEN [kind |-> "ok", val |-> e.val, def |-> e.def, com |-> e.com, hdr |-> e.hdr] ELSE [kind |-> e.kind]
TPut == IsEvent("put") /\ Quiet /\ files' = [files EXCEPT ![Cur.f] = AsFile(Cur)] /\ UNCHANGED <<D, P, pend, cl>>
TReset == IsEvent("reset") /\ Quiet /\ D' = [D EXCEPT ![Cur.b][Cur.o] = Cur.v] /\ P' = [P EXCEPT ![Cur.b][Cur.o] = Cur.v] /\ UNCHANGED <<files, pend, cl>>
TPCall == IsEvent("pcall") /\ (pend[Cur.b].f = 0 /\ pend' = [pend EXCEPT ![Cur.b] = [f |-> Cur.f, done |-> FALSE]]) /\ UNCHANGED <<files, D, P, cl>>
Do(b) == /\ pend[b].f # 0 /\ ~pend[b].done
         /\ \E r \in {Parse(Opts, Place(pend[b].f), files[pend[b].f], P[b], D[b])} :
              /\ files' = [files EXCEPT ![pend[b].f] = r.file]
              /\ pend' = [pend EXCEPT ![b] = [f |-> @.f, done |-> TRUE, ok |-> r.ok, val |-> r.val, may |-> IF r.ok THEN DOMAIN Opts ELSE IF r.read THEN DOMAIN Opts \ r.bad ELSE {}]]
              /\ (IF r.ok THEN P' = [P EXCEPT ![b] = r.val]
                  ELSE \E U \in SUBSET (IF r.read THEN DOMAIN Opts \ r.bad ELSE {}) :
                         P' = [P EXCEPT ![b] = [i \in DOMAIN Opts |-> IF i \in U THEN r.val[i] ELSE @[i]]])
         /\ UNCHANGED <<D, cl>> /\ Silent
\* on success the user is told every value once; on failure an option is told its new value or nothing
TPRet == /\ IsEvent("pret")
         /\ (LET p == pend[Cur.b] IN
              /\ p.f # 0 /\ p.done /\ Cur.ok = p.ok
              /\ \A i \in DOMAIN Opts :
                   \/ Cur.tgt[i] = p.val[i] /\ Cur.calls[i] = 1 /\ i \in p.may
                   \/ ~p.ok /\ Cur.tgt[i] = <<"-">> /\ Cur.calls[i] = 0)
         /\ pend' = [pend EXCEPT ![Cur.b] = Idle] /\ UNCHANGED <<files, D, P, cl>>
TWrite == /\ IsEvent("write") /\ Quiet
          /\ (LET can == CanWrite(Opts, Place(Cur.f), files[Cur.f]) IN
                /\ Cur.threw = ~can
                /\ files' = [files EXCEPT ![Cur.f] = IF can THEN Content(Opts, P[Cur.b], D[Cur.b], Cur.all, Cur.hdr) ELSE @])
          /\ UNCHANGED <<D, P, pend, cl>>
Same(F, e) == /\ F.kind = e.kind
              /\ (F.kind = "ok" => F.val = e.val /\ F.def = e.def /\ F.com = e.com /\ (F.hdr = Auto \/ F.hdr = e.hdr))
TLook == IsEvent("look") /\ Quiet /\ Same(files[Cur.f], Cur) /\ UNCHANGED <<files, D, P, pend, cl>>
TCl == IsEvent("cl") /\ Quiet /\ Cur.n = Len(Cur.use) /\ cl' = [on |-> TRUE, c |-> Cur] /\ UNCHANGED <<files, D, P, pend>>
TClRet == /\ IsEvent("clret")
          /\ (cl.on /\ ~cl.c.bad /\ Cur.help = cl.c.help
              /\ (~cl.c.help => \A i \in DOMAIN cl.c.use : Cur.res[i] = ClValue(cl.c.use[i], cl.c.def[i], cl.c.impl[i])))
          /\ cl' = [on |-> FALSE] /\ UNCHANGED <<files, D, P, pend>>
\* a faulty command line ends the program
TTerm == IsEvent("terminate") /\ (cl.on /\ cl.c.bad) /\ UNCHANGED <<files, D, P, pend, cl>>
TEnd == IsEvent("end") /\ Quiet /\ ~cl.on /\ UNCHANGED <<files, D, P, pend, cl>>
Next == TMade \/ TPut \/ TReset \/ TPCall \/ (\E b \in B : More /\ Do(b)) \/ TPRet \/ TWrite \/ TLook \/ TCl \/ TClRet \/ TTerm \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
