SPECIFICATION Spec
CONSTANTS
  N = 3
  Rounds = 3
INVARIANT Safe
PROPERTY AllPass
CHECK_DEADLOCK FALSE
