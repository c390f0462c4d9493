SPECIFICATION Spec
CONSTANTS
 NT = 3
 NM = 2
 Locked = TRUE
INVARIANTS Atomic SameOrder OwnOrder
CHECK_DEADLOCK FALSE
