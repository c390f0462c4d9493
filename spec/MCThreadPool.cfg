SPECIFICATION Spec
CONSTANTS
  Users = {1, 2}
  Tasks = {11, 12, 13}
  N0 = 2
  N1 = 1
INVARIANTS AtMostOnce CounterExact WaitSeesAll Bounded GoneDrained
PROPERTIES EveryTaskRuns WaitEnds
CHECK_DEADLOCK FALSE
