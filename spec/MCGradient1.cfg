SPECIFICATION Spec
CONSTANTS Size = 5
 Values = {0, 1, 2}
 Points = 2
 Dims = 1
INVARIANTS InRange OneProbePerDimension Downhill Flat
PROPERTIES Alone
CHECK_DEADLOCK FALSE
