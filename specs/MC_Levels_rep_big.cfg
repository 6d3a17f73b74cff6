SPECIFICATION Spec
CONSTANTS Keys = {1,2} Vers = {1,2,3} MaxRows = 6 Rep = TRUE NLevels = 4 PartRows = 1
O <- OO
INVARIANT Laws
PROPERTY Rounds
CHECK_DEADLOCK FALSE
