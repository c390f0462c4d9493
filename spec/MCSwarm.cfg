SPECIFICATION Spec
CONSTANTS NN = 2
 Mem = 2
 Values = {0, 1}
 Iterations = 2
 MaxLost = 4
 MaxLate = 1
INVARIANTS Memory CanMove Shape Present
PROPERTIES Better
CHECK_DEADLOCK FALSE
