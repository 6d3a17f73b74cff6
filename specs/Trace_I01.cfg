SPECIFICATION TSpec
CONSTANTS
  CheckRows = TRUE
  CheckKeys = FALSE
INVARIANT Sound
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
