SPECIFICATION Spec
CONSTANTS
  Us = {"u", "v"}
  As = {"a", "b"}
  N = 4
  Steps = 6
INVARIANTS Laws
PROPERTY ForLife
CHECK_DEADLOCK FALSE
