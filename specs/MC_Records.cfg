SPECIFICATION Spec
CONSTANTS
  N = 2
  Prices = {0, 7}
INVARIANTS Right Wrong Splits Narrows Joins ById Shows1
CHECK_DEADLOCK FALSE
