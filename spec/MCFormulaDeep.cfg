SPECIFICATION Spec
CONSTANTS
 Nodes = 6
INVARIANTS Reads Wrapped Strict
CHECK_DEADLOCK FALSE
