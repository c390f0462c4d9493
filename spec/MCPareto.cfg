SPECIFICATION Spec
CONSTANTS Values = {0, 1}
 Modes = {3, 4}
 Nps = {1, 2}
 Extra = {0}
 Rates = {0, 1}
 Losses = {0, 1}
 Ncrit = 2
 Nrec = 1
INVARIANTS Sizes NothingLost ListSane
PROPERTIES FrontKept FrontFirst
CHECK_DEADLOCK FALSE
