SPECIFICATION Spec
CONSTANTS
  As = {1, 2, 3}
  Os = {1, 2}
  Names = {"x", "y"}
  Roles = {"owner", "admin"}
  Steps = 7
INVARIANTS Laws
CHECK_DEADLOCK FALSE
