SPECIFICATION Spec
CONSTANTS
 Nodes = 5
INVARIANTS Reads Wrapped Strict
CHECK_DEADLOCK FALSE
