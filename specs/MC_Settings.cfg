SPECIFICATION Spec
CONSTANTS
  Steps = 5
INVARIANTS Laws Credentials
CHECK_DEADLOCK FALSE
