----------------------------- MODULE MCAdaptor -----------------------------
(* All histories of an adaptor with few different numbers. *)
EXTENDS Adaptor, TLC
CONSTANTS K, T
VARIABLE since   \* adaptions since the settings were last changed by an adaption
vars == <<aVars, since>>
H == One \div 2
Ns == {0, H, One}
Qs == IF K = 2 THEN 3 ELSE IF K < 2 THEN 1 ELSE 0
Init == /\ kind = K /\ q = [k \in 1..Qs |-> <<H, MinSigma, One, IF k = 1 THEN H ELSE 0>>] /\ rst = (IF K < 2 THEN H ELSE 0) /\ ad = One /\ adlo = MinAd /\ adhi = One /\ ard = One /\ aad = 0
        /\ thr = 1 /\ cnt = 0 /\ aap = 0 /\ mode = 0 /\ since = 0
Try(ok, a) == (IF ok THEN a ELSE Refused) /\ UNCHANGED since
NearBy(k) == {q[k][1], q[k][2], q[k][3]} \cup {x \in {H} : In(H, q[k][2], q[k][3])}
Cand == {[k \in DOMAIN q |-> IF k = 1 THEN x ELSE q[k][1]] : x \in {MinSigma, 0, H, One} \cup {H \div 2}}
Next == \/ \E x \in Ns : Try(SetAdOK(x), SetAd(x)) \/ Try(SetArdOK(x), SetArd(x)) \/ Try(x # H \/ K > 2, SetAap(x)) \/ Try(TRUE, SetAad(x))
        \/ \E x \in 0..T : Try(TRUE, SetThr(x))
        \/ \E x \in 0..2 : Try(TRUE, SetMode(x))
        \/ \E a, b \in Ns : Try(AdRangeOK(a, b), AdRange(a, b))
        \/ \E k \in DOMAIN q, x \in Ns : (k = 1 /\ (Try(QSetOK(k, x, q), QSet(k, x)) \/ Try(TRUE, QRate(k, x))))
        \/ \E k \in DOMAIN q, a, b \in Ns : (k = 1 /\ Try(RangeOK(k, a, b), QRange(k, a, b)))
        \/ (Gauss /\ \E x \in Ns : Try(QSetOK(1, x, q), SetRst(x)))
        \/ Try(TRUE, Stall)
        \/ \E m \in 1..2, n \in 0..2, y \in {ad, adlo, adhi, H}, c \in (IF Qs = 0 THEN {<< >>} ELSE Cand) :
              /\ ad' = y /\ q' = [k \in DOMAIN q |-> [q[k] EXCEPT ![1] = c[k]]] /\ AdaptN(m, n)
              /\ since' = (IF thr > 0 THEN (IF Due(cnt, n)[1] > 0 THEN Due(cnt, n)[2] ELSE since + n) ELSE since)
              /\ Assert(q' # q /\ thr > 0 => since + n >= thr, "settings changed early")
              /\ Assert(mode = 2 => q' = q, "settings changed without adaption")
Spec == Init /\ [][Next]_vars
Counts == cnt = since
=============================================================================
