SPECIFICATION Spec
CONSTANTS
  Subs = {1, 2}
  Cons = {11, 12}
  MaxItems = 2
  MaxPorts = 2
  Cap = 1
  Exact = FALSE
INVARIANTS AtMostOnce NotLost OwnPort Fair
CHECK_DEADLOCK FALSE
