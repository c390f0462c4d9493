--------------------------- MODULE PrioQueueTrace ---------------------------
EXTENDS TraceKit, PrioQueue
vars == <<kitVars, pqVars>>
Init == KitInit /\ store = <<>> /\ max = Traces[tid].cfg.max /\ high = Traces[tid].cfg.high
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
PSeq(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2]>>]
\* what the store tells about itself after every call
Told == store' = PSeq(Cur.res) /\ Cur.size = Len(Cur.res) /\ (Cur.empty <=> Cur.size = 0) /\ max' = Cur.max /\ high' = Cur.high
TAdd == IsEvent("add") /\ Add(Pairs(Cur.items), Cur.replace, PSeq(Cur.res)) /\ Told
TPop == IsEvent("pop") /\ IF store = <<>> THEN Cur.got = <<>> /\ UNCHANGED pqVars /\ Told
                          ELSE Len(Cur.got) = 1 /\ PSeq(Cur.got) = <<Head(store)>> /\ Pop /\ Told
TEnds == IsEvent("ends") /\ UNCHANGED pqVars /\ Told
         /\ IF store = <<>> THEN Cur.got = <<>> ELSE PSeq(Cur.got) = <<store[1], store[Len(store)]>>
TClear == IsEvent("clear") /\ Clear /\ Told
TMax == IsEvent("setmax") /\ SetMax(Cur.n, PSeq(Cur.res)) /\ Told
TOrder == IsEvent("setorder") /\ SetOrder(Cur.h, PSeq(Cur.res)) /\ Told
TCopy == IsEvent("copy") /\ UNCHANGED pqVars /\ Told
TEnd == IsEvent("end") /\ UNCHANGED pqVars
Next == TAdd \/ TPop \/ TEnds \/ TClear \/ TMax \/ TOrder \/ TCopy \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
