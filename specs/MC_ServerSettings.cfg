SPECIFICATION Spec
CONSTANTS
  Steps = 3
INVARIANTS Usable Sealed
PROPERTIES Whole
CHECK_DEADLOCK FALSE
