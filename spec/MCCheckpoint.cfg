SPECIFICATION Spec
CONSTANTS
  Iters = 3
  Fits = {1, 2}
  Runs = 2
  Crashes = 2
  Intervals <- All
INVARIANTS Loadable Complete Tidy
PROPERTY Onwards
CHECK_DEADLOCK FALSE
