SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxE = 1 Vals = {1, 2} MaxGo = 1 MaxP = 1 Stages <- MCStages
