SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS Right Complement Laws
CHECK_DEADLOCK FALSE
