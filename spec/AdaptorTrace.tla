---------------------------- MODULE AdaptorTrace ----------------------------
(* Conformance of the adaptors. *)
EXTENDS TraceKit, Adaptor
vars == <<kitVars, aVars>>
Init == /\ KitInit /\ kind = Cfg.kind /\ q = << >> /\ rst = 0 /\ ad = 0 /\ adlo = 0 /\ adhi = 0 /\ ard = 0 /\ aad = 0 /\ thr = 0 /\ cnt = 0 /\ aap = 0 /\ mode = 0
S == Cur.s
Seen == /\ q' = S.q /\ rst' = S.rst /\ ad' = S.ad /\ adlo' = S.adlo /\ adhi' = S.adhi /\ ard' = S.ard /\ aad' = S.aad /\ thr' = S.thr /\ cnt' = S.cnt /\ aap' = S.aap /\ mode' = S.mode
Op(e) == IsEvent(e) /\ Seen
Allowed(ok, a) == IF ok THEN ~Cur.thrown /\ a ELSE Cur.thrown /\ Refused
Never(a) == ~Cur.thrown /\ a
\* constructors
H == Cur.how
V(k) == H.v[k]
TMake == /\ Op("make") /\ UNCHANGED kind /\ cnt' = 0
         /\ (H.n \in {1, 5} => ad' = (IF H.n = 1 THEN V(5) ELSE V(5)))
         /\ (H.n \in {4, 5} => q' = <<<<V(1), Max(V(3), MinSigma), V(4), V(2)>>>> /\ rst' = V(1))
TAd == Op("ad") /\ Allowed(SetAdOK(Cur.v), SetAd(Cur.v))
TArd == Op("ard") /\ Allowed(SetArdOK(Cur.v), SetArd(Cur.v))
TAap == Op("aap") /\ Allowed(In(Cur.v, 0, One), SetAap(Cur.v))
TAad == Op("aad") /\ Never(SetAad(Cur.v))
TThr == Op("thr") /\ Never(SetThr(Cur.v))
TMode == Op("mode") /\ Never(SetMode(Cur.m))
TAdr == Op("adr") /\ Allowed(AdRangeOK(Cur.a, Cur.b), AdRange(Cur.a, Cur.b))
TQSet == Op("qset") /\ Allowed(QSetOK(Cur.k, Cur.v, q), QSet(Cur.k, Cur.v))
TQRange == Op("qrange") /\ Allowed(RangeOK(Cur.k, Cur.a, Cur.b), QRange(Cur.k, Cur.a, Cur.b))
TQRate == Op("qrate") /\ Never(QRate(Cur.k, Cur.w))
TQAll == Op("qall") /\ QAll(Cur.k, Cur.v, Cur.w, Cur.a, Cur.b) /\ Cur.thrown = ~QAllOK(Cur.k, Cur.v, Cur.a, Cur.b)
TRst == Op("qrst") /\ Allowed(QSetOK(1, Cur.v, q), SetRst(Cur.v))
TInit == Op("init") /\ Never(RandomInit)
TStall == Op("stall") /\ Never(Stall) /\ Cur.res = Stalled
TCopy == Op("copy") /\ Never(Refused)
TAdapt == Op("adapt") /\ Never(AdaptN(Cur.m, Cur.n)) /\ Cur.ch = Cur.n /\ Cur.unit
TEnd == IsEvent("end") /\ UNCHANGED aVars
Next == (TMake \/ TAd \/ TArd \/ TAap \/ TAad \/ TThr \/ TMode \/ TAdr \/ TQSet \/ TQRange \/ TQRate \/ TQAll \/ TRst \/ TInit \/ TStall \/ TCopy \/ TAdapt \/ TEnd) /\ Limits'
Spec == Init /\ [][Next]_vars
=============================================================================
