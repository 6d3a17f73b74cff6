SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Cols = {"c", "d"}
  Texts = {"a", "b"}
  MaxCalls = 5
INVARIANTS Laws
PROPERTY Atomic
CHECK_DEADLOCK FALSE
