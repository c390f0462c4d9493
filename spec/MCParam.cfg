SPECIFICATION Spec
INVARIANT InRange
PROPERTY Quiet
CONSTANTS W = 1 K = 4
