SPECIFICATION Spec
CONSTANTS Values = {0, 1, 2}
 Modes = {0, 1, 2, 3, 4, 5}
 Nps = {1, 2}
 Extra = {0}
 Rates = {0, 1}
 Losses = {0, 1, 5}
 Ncrit = 1
 Nrec = 1
INVARIANTS Sizes NothingLost ListSane
PROPERTIES Monotone Comma
CHECK_DEADLOCK FALSE
