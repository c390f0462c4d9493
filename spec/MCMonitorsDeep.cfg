SPECIFICATION Spec
CONSTANTS Runs = 1
  Iters = 3
  MaxPop = 2
INVARIANTS HeaderFirst Complete Unfiltered SameWidth Kept Written Columned
CHECK_DEADLOCK FALSE
