------------------------------ MODULE Adaptor ------------------------------
(* An adaptor: it changes values with some probability, and from time to time its
   own settings.  q: by setting <<current value, lower limit, upper limit, rate of
   change>>; one for normal distributions, three for double normal distributions,
   none for flips.  Numbers are multiples of 1/One. *)
EXTENDS Integers, Sequences
One == 1000000000
MinSigma == One \div 1000
MinAd == One \div 1000
VARIABLES kind,          \* 0, 1: normal distribution; 2: double normal distribution; 3, 4: flips
          q, rst,        \* settings, value to return to upon a stall (kinds 0 and 1)
          ad, adlo, adhi, ard, aad,   \* adaption probability, its limits, value to return to, rate of change
          thr, cnt, aap, \* settings are changed every thr adaptions, or with a probability
          mode           \* 0: adapt with probability, 1: always, 2: never
aVars == <<kind, q, rst, ad, adlo, adhi, ard, aad, thr, cnt, aap, mode>>
Gauss == kind \in {0, 1}
Max(a, b) == IF a > b THEN a ELSE b
Clamp(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
In(x, a, b) == a <= x /\ x <= b
Limits == /\ In(ad, adlo, adhi) /\ In(ard, adlo, adhi) /\ In(adlo, 0, adhi) /\ adhi <= One
          /\ \A k \in DOMAIN q : In(q[k][1], q[k][2], q[k][3]) /\ q[k][2] >= 0
          /\ (Gauss => In(rst, q[1][2], q[1][3]))
Keep(x) == UNCHANGED x
RestAd == <<kind, q, rst, thr, cnt, aap, mode>>
SetAdOK(x) == In(x, 0, One) /\ In(x, adlo, adhi)
SetAd(x) == ad' = x /\ Keep(<<adlo, adhi, ard, aad, RestAd>>)
SetArdOK(x) == In(x, adlo, adhi)
SetArd(x) == ard' = x /\ Keep(<<ad, adlo, adhi, aad, RestAd>>)
SetAap(x) == aap' = x /\ Keep(<<ad, adlo, adhi, ard, aad, kind, q, rst, thr, cnt, mode>>)
SetAad(x) == aad' = x /\ Keep(<<ad, adlo, adhi, ard, RestAd>>)
SetThr(x) == thr' = x /\ Keep(<<ad, adlo, adhi, ard, aad, kind, q, rst, cnt, aap, mode>>)
SetMode(x) == mode' = x /\ Keep(<<ad, adlo, adhi, ard, aad, kind, q, rst, thr, cnt, aap>>)
AdRangeOK(a, b) == 0 <= a /\ Max(a, MinAd) <= b /\ b <= One
AdRange(a, b) == /\ adlo' = Max(a, MinAd) /\ adhi' = b /\ ad' = Clamp(ad, Max(a, MinAd), b) /\ ard' = Clamp(ard, Max(a, MinAd), b)
                 /\ Keep(<<aad, RestAd>>)
RestQ == <<kind, ad, adlo, adhi, ard, aad, thr, cnt, aap, mode>>
\* settings other than the distance of the two distributions can't be 0
Low(k, a) == IF k = 3 THEN a ELSE Max(a, MinSigma)
QSetOK(k, x, p) == In(x, p[k][2], p[k][3])
RangeOK(k, a, b) == 0 <= a /\ a <= b /\ Low(k, a) <= b /\ (Gauss => b <= One)
WithRange(k, a, b, p) == [p EXCEPT ![k] = <<Clamp(p[k][1], Low(k, a), b), Low(k, a), b, p[k][4]>>]
WithRate(k, w, p) == [p EXCEPT ![k][4] = w]
QSet(k, x) == q' = [q EXCEPT ![k][1] = x] /\ Keep(<<rst, RestQ>>)
QRange(k, a, b) == q' = WithRange(k, a, b, q) /\ rst' = (IF Gauss THEN Clamp(rst, Low(k, a), b) ELSE rst) /\ Keep(RestQ)
QRate(k, w) == q' = WithRate(k, w, q) /\ Keep(<<rst, RestQ>>)
\* rate, range and value, as far as they are accepted
QAllOK(k, x, a, b) == RangeOK(k, a, b) /\ QSetOK(k, x, WithRange(k, a, b, q))
QAll(k, x, w, a, b) == LET p == WithRate(k, w, q) IN
    /\ q' = (IF ~RangeOK(k, a, b) THEN p ELSE IF QAllOK(k, x, a, b) THEN [WithRange(k, a, b, p) EXCEPT ![k][1] = x] ELSE WithRange(k, a, b, p))
    /\ rst' = (IF Gauss /\ RangeOK(k, a, b) THEN Clamp(rst, Low(k, a), b) ELSE rst) /\ Keep(RestQ)
SetRst(x) == rst' = x /\ Keep(<<q, RestQ>>)
Refused == UNCHANGED aVars
\* all settings are drawn anew
RandomInit == /\ DOMAIN q' = DOMAIN q /\ \A k \in DOMAIN q : In(q'[k][1], q[k][2], q[k][3]) /\ q'[k] = [q[k] EXCEPT ![1] = q'[k][1]]
              /\ Keep(<<rst, RestQ>>)
Stalled == ad # ard \/ (Gauss /\ q[1][1] # rst)
Stall == /\ ad' = ard /\ q' = (IF Gauss THEN [q EXCEPT ![1][1] = rst] ELSE q) /\ Keep(<<kind, rst, adlo, adhi, ard, aad, thr, cnt, aap, mode>>)
\* how often settings change during n adaptions, and the counter afterwards
RECURSIVE Due(_, _)
Due(c, n) == IF n = 0 THEN <<0, c>> ELSE IF c + 1 >= thr THEN LET d == Due(0, n - 1) IN <<d[1] + 1, d[2]>> ELSE Due(c + 1, n - 1)
\* x follows from the setting s after one or more changes
Moved(x, s) == /\ x[2] = s[2] /\ x[3] = s[3] /\ x[4] = s[4] /\ In(x[1], s[2], s[3])
               /\ (IF s[4] = 0 THEN x[1] = s[1] ELSE (s[2] < s[1] /\ s[1] < s[3]) => x[1] # s[1])
\* m values, n of which are adapted
AdaptN(m, n) ==
    /\ n \in 0..m
    /\ (IF aad = 0 THEN ad' = ad ELSE In(ad', adlo, adhi) /\ ((adlo < ad /\ ad < adhi) => ad' # ad))
    /\ (mode = 1 => n = m) /\ (mode = 2 => n = 0) /\ ((mode = 0 /\ ad' = One /\ (aad = 0 \/ kind # 4)) => n = m)   \* a collection of booleans draws the probability for each value
    /\ (IF thr > 0 THEN /\ cnt' = Due(cnt, n)[2]
                        /\ (IF Due(cnt, n)[1] = 0 THEN q' = q ELSE DOMAIN q' = DOMAIN q /\ \A k \in DOMAIN q : Moved(q'[k], q[k]))
        ELSE /\ cnt' = cnt
             /\ (IF n = 0 \/ aap = 0 THEN q' = q
                 ELSE DOMAIN q' = DOMAIN q /\ ((aap < One /\ q' = q) \/ \A k \in DOMAIN q : Moved(q'[k], q[k]))))
    /\ Keep(<<kind, rst, adlo, adhi, ard, aad, thr, aap, mode>>)
=============================================================================
