SPECIFICATION TSpec
CONSTANTS
  CheckRows = FALSE
  CheckKeys = TRUE
INVARIANT Sound
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
