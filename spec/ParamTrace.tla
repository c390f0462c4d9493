----------------------------- MODULE ParamTrace -----------------------------
(* Conformance of the constrained parameter types. *)
EXTENDS TraceKit, Param
vars == <<kitVars, pVars>>
InitT(s) == /\ v = s.v /\ lo = s.lo /\ up = s.up /\ act = s.act /\ blk = s.blk /\ top = s.top /\ tblk = s.tblk
Init == KitInit /\ kind = Cfg.kind /\ v = << >> /\ lo = << >> /\ up = << >> /\ act = << >> /\ blk = << >> /\ top = TRUE /\ tblk = FALSE
\* what is seen of the object after each operation
Seen(s) == /\ v' = s.v /\ lo' = s.lo /\ up' = s.up /\ act' = s.act /\ blk' = s.blk /\ top' = s.top /\ tblk' = s.tblk /\ s.ok
S == Cur.s
M == Cur.m
Allowed(ok, a) == IF ok THEN ~Cur.thrown /\ a ELSE Cur.thrown /\ Refused
Never(a) == ~Cur.thrown /\ a
Op(e) == IsEvent(e) /\ Seen(S)
TMake == IsEvent("make") /\ Seen(S) /\ UNCHANGED kind
TSet == Op("set") /\ Allowed(SetOK(Cur.pos, Cur.val), Set(Cur.pos, Cur.val))
TSetAll == Op("setall") /\ Allowed(SetAllOK(Cur.val, Cur.lo, Cur.up), SetAll(Cur.pos, Cur.val, Cur.lo, Cur.up))
TBounds == Op("bounds") /\ Allowed(BoundsOK(Cur.pos, Cur.lo, Cur.up), Bounds(Cur.pos, Cur.lo, Cur.up))
TAssign == Op("assign") /\ Never(Assign(Cur.vals, M)) /\ Cur.used = Len(Cur.vals)
TFix == Op("fix") /\ Never(Fix(Cur.val, M))
TMul == Op("mul") /\ Never(Mul(Cur.by, M))
TAdd == Op("add") /\ Never(Add(Cur.vals, IF Cur.sub THEN -1 ELSE 1, M))
TRnd == Op("rnd") /\ Never(IF Cur.init THEN RandomInit(M) /\ Cur.done = (Init1(M) # {}) ELSE RandomMul(M))
TAdapt == Op("adapt") /\ Never(Adapt) /\ Cur.n = Cur.times * Cardinality(Adapted)
TAct == Op("act") /\ Never(Act(Cur.pos, Cur.top, Cur.on)) /\ Cur.prev = (IF Leaf \/ Cur.top THEN top ELSE act[Cur.pos] = 1)
TBlk == Op("blk") /\ Never(Block(Cur.pos, Cur.top, Cur.on))
TCopy == Op("copy") /\ Never(UNCHANGED pVars)
TLoad == Op("load") /\ Never(Seen(Cur.o)) /\ UNCHANGED kind
TEnd == IsEvent("end") /\ UNCHANGED pVars
Next == (TMake \/ TSet \/ TSetAll \/ TBounds \/ TAssign \/ TFix \/ TMul \/ TAdd \/ TRnd \/ TAdapt \/ TAct \/ TBlk \/ TCopy \/ TLoad \/ TEnd) /\ InRange'
Spec == Init /\ [][Next]_vars
=============================================================================
