SPECIFICATION TSpec
POSTCONDITION Complete
INVARIANT Sound
CHECK_DEADLOCK FALSE
