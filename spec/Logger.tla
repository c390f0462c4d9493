------------------------------- MODULE Logger -------------------------------
(* The global logger: a message of kind "log" or "warn" goes to every registered target, or, when there
   is none, to the default target; the other kinds go to one fixed place.  A message is
   [id, how, src]; conf = [targets |-> sequence of names, dflt |-> name]. *)
EXTENDS Naturals, Sequences
\* a file target keeps one file per source
Place(t, src) == IF t = "f0" /\ src # "" THEN "f0_" \o src ELSE t
Fixed == [out |-> "out", err |-> "err", file |-> "one", exc |-> "exc"]
\* the places a message goes to, in order; one that is registered twice gets it twice
Dest(conf, m) == IF m.how \notin {"log", "warn"} THEN <<Fixed[m.how]>>
                 ELSE IF conf.targets = << >> THEN <<Place(conf.dflt, m.src)>>
                 ELSE [i \in DOMAIN conf.targets |-> Place(conf.targets[i], m.src)]
RECURSIVE Deliver(_, _, _)
Deliver(sinks, ds, id) == IF ds = << >> THEN sinks ELSE Deliver([sinks EXCEPT ![Head(ds)] = Append(@, id)], Tail(ds), id)
IsPre(s, t) == Len(s) <= Len(t) /\ \A i \in DOMAIN s : s[i] = t[i]
=============================================================================
