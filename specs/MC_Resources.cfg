SPECIFICATION Spec
CONSTANTS
  Kinds = {"cevent", "bookmark"}
  Projects = {1}
  Ids = {1, 2}
  People = {1, 2}
  Values = {"", "=a"}
  Depth = 2
CONSTRAINT Small
INVARIANTS Laws
PROPERTIES Alone NeverAgain
CHECK_DEADLOCK FALSE
