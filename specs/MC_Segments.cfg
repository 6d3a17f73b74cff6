SPECIFICATION Spec
CONSTANTS N = 2
INVARIANTS Right Complement Laws
CHECK_DEADLOCK FALSE
