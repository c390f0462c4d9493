---- MODULE MCMonitors ----
(* Bounded model: runs of up to two iterations over small populations, all kinds of monitors at once. *)
EXTENDS Monitors
CONSTANTS Runs, Iters, MaxPop
VARIABLES run, it, on, file, shown, seen, reports    \* file: all lines in the current file; shown: solutions due in it
vars == <<mvars, run, it, on, file, shown, seen, reports>>
Ind(v, k, ok, nad) == [v |-> <<v, v, v>>, m |-> <<k, k, 0>>, done |-> TRUE, nad |-> nad, r |-> <<ToString(k)>>, t |-> <<ToString(k)>>, r6 |-> <<ToString(k)>>, t6 |-> <<ToString(k)>>, k |-> <<k>>, ok |-> ok]
Inds == {Ind("0", 0, TRUE, 0), Ind("1", 1, TRUE, 2), Ind("2", 2, FALSE, 1)}
Raw(p) == [p EXCEPT !.done = FALSE, !.ok = FALSE, !.nad = 0, !.r = <<>>, !.t = <<>>, !.r6 = <<>>, !.t6 = <<>>, !.k = <<>>]
Pops == UNION {[1..n -> Inds] : n \in 1..MaxPop}
Sol(old, init, hdr, sep, bound) == [kind |-> "sol", old |-> old, init |-> init, hdr |-> hdr, sep |-> sep, val |-> TRUE, commas |-> TRUE, raw |-> TRUE, bound |-> bound]
MyConf == [pars |-> <<<<2, "int32">>, <<1, "double">>, <<1, "double">>>>, ncrit |-> 1, max |-> FALSE,
           logs |-> <<Sol(TRUE, FALSE, TRUE, TRUE, <<1>>), Sol(FALSE, TRUE, TRUE, FALSE, <<>>), [kind |-> "res", old |-> FALSE, commas |-> FALSE, raw |-> FALSE],
                      [kind |-> "nad", old |-> TRUE, best |-> TRUE], [kind |-> "nad", old |-> FALSE, best |-> FALSE], [kind |-> "time", old |-> FALSE],
                      [kind |-> "prog", old |-> FALSE, best |-> FALSE, vo |-> TRUE, obs |-> TRUE, raw |-> TRUE, vars |-> <<2>>, lo |-> <<1>>, hi |-> <<2>>]>>]
Init == conf = MyConf /\ MInit /\ run = 0 /\ it = 0 /\ on = FALSE /\ file = [i \in NL |-> <<>>] /\ shown = [i \in NL |-> 0] /\ seen = 0 /\ reports = 0
Best(pop) == pop[CHOOSE i \in 1..Len(pop) : \A j \in 1..Len(pop) : pop[i].k[1] <= pop[j].k[1]]
Start == /\ ~on /\ run < Runs /\ run' = run + 1 /\ on' = TRUE /\ it' = 0 /\ reports' = 0 /\ seen' = 0
         /\ \E pop \in Pops : LET p == [i \in 1..Len(pop) |-> Raw(pop[i])] IN
              /\ ReportInit(p) /\ shown' = [i \in NL |-> IF logs[i].kind = "sol" /\ logs[i].init THEN Len(pop) ELSE 0]
         /\ file' = [i \in NL |-> lines'[i]]
Report == /\ on /\ it < Iters /\ it' = it + 1 /\ UNCHANGED <<run, on>> /\ reports' = reports + 1
          /\ \E pop \in Pops : /\ ReportIteration(it, pop, Best(pop)) /\ seen' = seen + Len(pop)
                               /\ shown' = [i \in NL |-> shown[i] + (IF logs[i].kind = "sol" THEN Len(Shown(logs[i], pop)) ELSE 0)]
          /\ file' = [i \in NL |-> file[i] \o lines'[i]]
\* iterations may pass without a report
Skip == on /\ it < Iters /\ it' = it + 1 /\ UNCHANGED <<mvars, run, on, file, shown, seen, reports>>
Finish == /\ on /\ it > 0 /\ on' = FALSE /\ ReportEnd /\ file' = [i \in NL |-> file[i] \o lines'[i]] /\ UNCHANGED <<run, it, shown, seen, reports>>
Next == Start \/ Report \/ Skip \/ Finish
Spec == Init /\ [][Next]_vars
Data(s) == SelectSeq(s, LAMBDA x : x.k = "v")
IsHeader(x) == x.t[1] \in {"#p1_0", "#double"}
\* names and types come once, before the first solution, and only with one
HeaderFirst == \A i \in NL : logs[i].kind = "sol" => LET d == Data(file[i]) IN (d = <<>> \/ (Len(d) > 2 /\ d[1].t[1] = "#p1_0" /\ d[2].t[1] = "#double" /\ \A j \in 3..Len(d) : ~IsHeader(d[j])))
\* nothing is lost and nothing invented
Complete == \A i \in NL : /\ (logs[i].kind = "sol" => Len(Data(file[i])) = shown[i] + (IF shown[i] > 0 THEN 2 ELSE 0))
                          /\ (logs[i].kind = "res" => Len(file[i]) = reports) /\ (logs[i].kind = "time" => Len(file[i]) = seen)
                          /\ (logs[i].kind = "nad" => Len(fits[i]) = reports /\ Len(hist[i]) = (IF logs[i].best THEN reports ELSE seen))
Unfiltered == shown[2] >= seen
SameWidth == \A i \in NL : logs[i].kind = "sol" => \A j \in 1..Len(file[i]) : (file[i][j].k = "v" => Len(file[i][j].t) = NCols + 2)
\* no earlier file is lost
Kept == \A i \in NL : LET w == IF logs[i].kind = "prog" THEN 0 ELSE baks[i] IN w <= run + (IF logs[i].old THEN 1 ELSE 0) /\ (logs[i].old /\ run > 0 /\ logs[i].kind # "prog" => w >= 1)
Written == (~on /\ run > 0) => \A i \in NL : (logs[i].kind \in {"nad", "prog"} => here[i] /\ plots[i] # <<>>)
Columned == NCols = Len(pars) /\ Columns = <<2, 3, 1>>
====
