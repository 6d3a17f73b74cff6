SPECIFICATION Spec
CONSTANTS Keys = {1,2} Vers = {1,2,3} MaxRows = 5
INVARIANT Laws
PROPERTY Lost
CHECK_DEADLOCK FALSE
