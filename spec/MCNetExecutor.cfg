SPECIFICATION Spec
CONSTANTS
  Positions = 2
  Calls = 2
  MaxR = 1
  Gives = 2
INVARIANTS Credible Olds Labels Bounded
PROPERTIES OwnResult GivesUp
CHECK_DEADLOCK FALSE
