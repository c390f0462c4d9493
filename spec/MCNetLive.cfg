SPECIFICATION LiveSpec
CONSTANTS
  Clients = {1, 2}
  MaxPorts = 2
  MaxItems = 2
  MaxSends = 3
  MaxGhosts = 1
  Exact = FALSE

PROPERTIES Answered
CHECK_DEADLOCK FALSE
