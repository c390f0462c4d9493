SPECIFICATION Spec
CONSTANTS
  Sizes <- MCSizes
  Pops <- MCPops
INVARIANT Inv
INVARIANT Alive
PROPERTY Ends
CHECK_DEADLOCK FALSE
