SPECIFICATION Spec
VIEW View
INVARIANTS Belongs Once Ranked Limited
CONSTANTS Size = 1 Vals = 2 Free = TRUE
