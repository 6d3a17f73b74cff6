SPECIFICATION Spec
CONSTANTS
  Projects = {1, 2}
  Names = {"a", "b"}
  Prefixes = {"s", "i"}
  Steps = 4
INVARIANTS Laws
CHECK_DEADLOCK FALSE
