SPECIFICATION Spec
VIEW View
INVARIANTS Belongs Once Ranked Limited
CONSTANTS Size = 2 Vals = 1 Free = FALSE
