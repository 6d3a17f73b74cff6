SPECIFICATION Spec
CONSTANTS
  Kinds = {"event", "report", "bookmark", "cevent"}
  Projects = {1, 2}
  Ids = {1}
  People = {1, 2}
  Values = {"", "=a"}
  Depth = 2
CONSTRAINT Small
INVARIANTS Laws
PROPERTIES Alone NeverAgain
CHECK_DEADLOCK FALSE
