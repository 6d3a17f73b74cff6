SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Texts = {"a", "b"}
  MaxId = 3
  MaxCalls = 4
INVARIANTS Laws
PROPERTY Atomic
CHECK_DEADLOCK FALSE
