SPECIFICATION Spec
CONSTANTS
  Values = {0, 1}
  MaxCycles = 3
  MaxT = 2
  Runs = 1
INVARIANTS StallCount BestOfRun Numbering EndsForAReason GoesOn GlobalBest Bounded
PROPERTIES NeverWorse
CHECK_DEADLOCK FALSE
