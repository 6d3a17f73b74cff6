SPECIFICATION Spec
CONSTANTS Keys = {1,2} Vers = {1,2,3} MaxRows = 3
INVARIANT Laws
PROPERTY Lost
CHECK_DEADLOCK FALSE
