SPECIFICATION Spec
CONSTANTS
  N = 3
  Prices = {250}
  Moments = {18030}
INVARIANTS NoOrder NoAliens Divides Opposites Joins Owners ByParts
CHECK_DEADLOCK FALSE
