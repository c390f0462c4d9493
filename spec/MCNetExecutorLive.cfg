SPECIFICATION SpecLive
CONSTANTS
  Positions = 2
  Calls = 1
  MaxR = 1
  Gives = 0
INVARIANTS Credible Olds Labels Bounded
PROPERTIES Returns
CHECK_DEADLOCK FALSE
