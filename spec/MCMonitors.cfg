SPECIFICATION Spec
CONSTANTS Runs = 2
  Iters = 2
  MaxPop = 1
INVARIANTS HeaderFirst Complete Unfiltered SameWidth Kept Written Columned
CHECK_DEADLOCK FALSE
