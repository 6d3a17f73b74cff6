SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Texts = {"a", "b"}
  MaxId = 3
  MaxCalls = 5
INVARIANTS Laws
PROPERTY Atomic
CHECK_DEADLOCK FALSE
