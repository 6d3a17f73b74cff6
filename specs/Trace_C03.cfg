SPECIFICATION TSpec
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
