SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3}
  Max = 1
  Width = 2
INVARIANTS Laws
CHECK_DEADLOCK FALSE
