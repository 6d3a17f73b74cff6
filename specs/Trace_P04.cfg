SPECIFICATION TSpec
INVARIANT Sound
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
