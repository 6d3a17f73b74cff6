SPECIFICATION Spec
CONSTANTS Keys = {1,2,3,4} Vers = {1} MaxRows = 6 Rep = FALSE NLevels = 4 PartRows = 2
O <- OO
INVARIANT Laws
PROPERTY Rounds
CHECK_DEADLOCK FALSE
