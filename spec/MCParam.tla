------------------------------ MODULE MCParam ------------------------------
(* All short histories of a pair of integer parameters; properties of the mapping. *)
EXTENDS Param
CONSTANTS W, K
vars == pVars
Cs == {8 * x : x \in (-W)..W}
ASSUME \A l, u \in (-3)..3 : l <= u => /\ \A x \in (-12)..12 : FoldInt(x, l, u) \in l..u /\ (x \in l..u => FoldInt(x, l, u) = x)
                                      /\ \A x \in (-12)..11 : Abs(FoldInt(x + 1, l, u) - FoldInt(x, l, u)) <= 1
ASSUME \A l, u \in (-3)..3 : l < u => /\ \A x \in (-12)..12 : FoldFp(x, l, u) \in l..u /\ (x \in l..u => FoldFp(x, l, u) = x)
                                     /\ \A x \in (-12)..11 : Abs(FoldFp(x + 1, l, u) - FoldFp(x, l, u)) = 1
Bnd == {<<a, b>> \in Cs \X Cs : a <= b}
Init == /\ kind = K /\ \E b \in {<<-8, 8>>, <<0, 16>>} : lo = <<b[1], b[1]>> /\ up = <<UpOf(b[2]), UpOf(b[2])>>
        /\ v = <<lo[1], lo[1]>> /\ act = <<1, 1>> /\ blk = <<0, 0>> /\ top = TRUE /\ tblk = FALSE
Cand == [Idx -> Cs \cup (IF HalfOpen THEN {c - 1 : c \in Cs} ELSE {})]
Next == \/ \E p \in Idx, x \in Cs : (IF SetOK(p, x) THEN Set(p, x) ELSE Refused)
        \/ \E p \in Idx, x \in Cs, b \in Bnd : (IF SetAllOK(x, b[1], b[2]) THEN SetAll(p, x, b[1], b[2]) ELSE Refused)
        \/ \E p \in Idx, b \in Bnd : (IF BoundsOK(p, b[1], b[2]) THEN Bounds(p, b[1], b[2]) ELSE Refused)
        \/ \E p \in Idx, on, all \in BOOLEAN : Act(p, all, on) \/ Block(p, all, on)
        \/ \E w \in Cand : v' = w /\ \E m \in 0..2 : \/ \E x \in Cs : Fix(x, m) 
                                                    \/ \E n \in {-1, 2} : Mul(n, m)
                                                    \/ Add(v, 1, m) \/ RandomInit(m) \/ RandomMul(m) \/ Adapt
Spec == Init /\ [][Next]_vars
\* inactive ones are left alone by adaption; ranges change on request only
Quiet == [][\A k \in Idx : (act[k] = 0 \/ ~top) /\ Adapt /\ lo' = lo /\ up' = up => v'[k] = v[k]]_vars
=============================================================================
