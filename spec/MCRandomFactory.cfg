SPECIFICATION Spec
CONSTANTS Producers = 2
 Consumers = 2
 Size = 2
 Cap = 2
 MaxNum = 8
INVARIANTS Once Apart Fresh
CHECK_DEADLOCK FALSE
