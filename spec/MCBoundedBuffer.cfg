SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  MaxItems = 3
  Capacity = 1
INVARIANTS Fifo WithinCapacity Distinct NoEffectOnFailure
CHECK_DEADLOCK FALSE
