SPECIFICATION Spec
INVARIANTS Limits Counts
CONSTANTS K = 0 T = 2
