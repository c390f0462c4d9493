SPECIFICATION Spec
CONSTANTS
 NT = 2
 NM = 2
 Locked = TRUE
INVARIANTS Atomic SameOrder OwnOrder
CHECK_DEADLOCK FALSE
