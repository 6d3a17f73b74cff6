SPECIFICATION Spec
CONSTANTS
  N = 4
  T = 5
INVARIANTS Batches Genuine Apart Found Counts
CHECK_DEADLOCK FALSE
