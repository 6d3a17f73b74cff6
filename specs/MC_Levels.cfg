SPECIFICATION Spec
CONSTANTS Keys = {1,2,3} Vers = {1} MaxRows = 5 Rep = FALSE NLevels = 4 PartRows = 1
O <- OO
INVARIANT Laws
PROPERTY Rounds
CHECK_DEADLOCK FALSE
