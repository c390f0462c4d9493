SPECIFICATION Spec
CONSTANTS
  Subs = {1, 2}
  Cons = {11}
  MaxItems = 4
  MaxPorts = 2
  Cap = 3
  Exact = TRUE
INVARIANTS AtMostOnce NotLost OwnPort Fair
CHECK_DEADLOCK FALSE
