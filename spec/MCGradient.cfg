SPECIFICATION Spec
CONSTANTS Size = 2
 Values = {0, 1, 2}
 Points = 1
 Dims = 2
INVARIANTS InRange OneProbePerDimension Downhill Flat
PROPERTIES Alone
CHECK_DEADLOCK FALSE
