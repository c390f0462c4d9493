SPECIFICATION Spec
CONSTANTS
 NB = 2
 MaxEnv = 1
INVARIANTS RoundTrip Essential OnlyWhereAllowed
PROPERTIES NeverOverwrites ParseWorks Creates
CHECK_DEADLOCK FALSE
