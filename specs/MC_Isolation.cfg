SPECIFICATION Spec
CONSTANTS
  Projects = {1, 2, 12}
  Keys = {"a", "b"}
  Vals = {1, 2}
INVARIANTS Same
PROPERTY Others
CHECK_DEADLOCK FALSE
