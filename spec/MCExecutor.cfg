SPECIFICATION Spec
CONSTANTS
  Positions = 2
  Threads = 2
  Calls = 3
INVARIANTS OncePerCall OwnResult AllTold
PROPERTIES Returns
CHECK_DEADLOCK FALSE
