SPECIFICATION Spec
CONSTANTS
 NB = 1
 MaxEnv = 2
INVARIANTS RoundTrip Essential OnlyWhereAllowed
PROPERTIES NeverOverwrites ParseWorks Creates
CHECK_DEADLOCK FALSE
