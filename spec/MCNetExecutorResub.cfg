SPECIFICATION Spec
CONSTANTS
  Positions = 2
  Calls = 1
  MaxR = 2
  Gives = 3
INVARIANTS Credible Olds Labels Bounded
PROPERTIES OwnResult GivesUp
CHECK_DEADLOCK FALSE
