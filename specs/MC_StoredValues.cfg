SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Typed Kept BackAndForth
CHECK_DEADLOCK FALSE
