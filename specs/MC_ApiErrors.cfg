SPECIFICATION Spec
INVARIANTS SameStatus KeepsMessage KeepsFields
CHECK_DEADLOCK FALSE
