SPECIFICATION Spec
CONSTANTS
  Visitors = {"a", "b", "c"}
  Times = {1, 2, 3}
  Steps = 8
INVARIANTS Laws
PROPERTY OnlyExpired
CHECK_DEADLOCK FALSE
