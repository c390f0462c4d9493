SPECIFICATION Spec
CONSTANT Depth = 6
INVARIANTS Truthful NoResult Last
CHECK_DEADLOCK FALSE
