------------------------------- MODULE MCLoop -------------------------------
EXTENDS Loop
CONSTANTS Values, MaxCycles, MaxT, Runs
VARIABLES hist,   \* fitness reported by the cycles of this run
          nid, nruns
mVars == <<lVars, hist, nid, nruns>>
Cfgs == [maxI : {0, 3}, minI : {0, 2}, ms : {0, 1}, mt : {0, 2}, mn : {0, 1}, hq : BOOLEAN, q : {0}, tf : {TRUE}, custom : {-1, 2}, nrec : {1, 2}]
Init == (\E m \in BOOLEAN : InitL(m)) /\ hist = <<>> /\ nid = 0 /\ nruns = 0
Ids(S) == {x.id : x \in S}
Bests(S) == {G \in SUBSET S : Kept(S, G, cf.nrec)}
MBegin == nruns < Runs /\ (\E c \in Cfgs, o \in {0, 1} : Begin(c, o)) /\ hist' = <<>> /\ nruns' = nruns + 1 /\ UNCHANGED nid
\* the population keeps one individual or gets a new one
MCycle == /\ Len(hist) < MaxCycles
          /\ \E v \in Values, t \in {now, now + 1}, s \in BOOLEAN, tc \in BOOLEAN, new \in BOOLEAN :
             /\ t <= MaxT /\ (new \/ (pop # <<>> /\ pop[1].tra = v))
             /\ Cycle(IF new THEN <<[id |-> nid + 1, raw |-> v, tra |-> v]>> ELSE pop, <<v, v>>, t, s, tc)
             /\ nid' = (IF new THEN nid + 1 ELSE nid) /\ hist' = Append(hist, v)
          /\ UNCHANGED nruns
MStep == phase = "after" /\ (\E G \in Bests(glob \cup clean) : Step(G)) /\ UNCHANGED <<hist, nid, nruns>>
MEnd == End /\ UNCHANGED <<hist, nid, nruns>>
Next == MBegin \/ MCycle \/ MStep \/ MEnd
Spec == Init /\ [][Next]_mVars
\* the count of stalls is the number of cycles since the last one that was strictly better than everything before
Improves(k) == \A j \in 1..(k - 1) : Better(hist[k], hist[j])
StallCount == phase # "out" /\ hist # <<>> => stall = (LET L == CHOOSE k \in DOMAIN hist : Improves(k) /\ \A j \in (k + 1)..Len(hist) : ~Improves(j) IN Len(hist) - L)
BestOfRun == phase # "out" /\ hist # <<>> => (\E k \in DOMAIN hist : hist[k] = best[2]) /\ \A k \in DOMAIN hist : ~Better(hist[k], best[2])
Numbering == phase \in {"in", "over"} => iter = off + Len(hist)
\* a run goes on only if nothing asks it to end, and ends only if something does
EndsForAReason == phase = "over" => Halt(iter)
GoesOn == phase = "in" /\ cycles > 0 => ~Halt(iter)
\* the overall best is never lost
GlobalBest == \A x \in clean : phase \in {"in", "over"} /\ cycles > 0 => \E g \in glob : ~Better(x.tra, g.tra)
NeverWorse == [][\A g \in glob : \E h \in glob' : ~Better(g.tra, h.tra)]_mVars
Bounded == cycles > 0 /\ phase \in {"in", "over"} => Cardinality(glob) <= cf.nrec
=============================================================================
