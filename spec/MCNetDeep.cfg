SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  MaxPorts = 2
  MaxItems = 2
  MaxSends = 4
  MaxGhosts = 1
  Exact = FALSE
INVARIANTS Once Conserved Right Bounded
PROPERTIES Harmless NoData
CHECK_DEADLOCK FALSE
