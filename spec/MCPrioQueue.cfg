SPECIFICATION Spec
CONSTANTS Ids = 4
 MaxMax = 3
 Steps = 4
INVARIANTS Shape BestEver
CHECK_DEADLOCK FALSE
