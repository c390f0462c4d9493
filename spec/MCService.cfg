SPECIFICATION Spec
CONSTANTS
  Ports = {1, 2}
  Items = {1, 2, 3}
  Workers = {11, 12}
INVARIANTS NeverLostOrDoubled NoWorkAfterStop
PROPERTIES Served Back
CHECK_DEADLOCK FALSE
