SPECIFICATION TSpec
POSTCONDITION Done
CHECK_DEADLOCK FALSE
