SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Cols = {"c", "d"}
  Texts = {"a", "b"}
  MaxCalls = 6
INVARIANTS Laws
PROPERTY Atomic
CHECK_DEADLOCK FALSE
