SPECIFICATION Spec
INVARIANTS Limits Counts
CONSTANTS K = 2 T = 1
