SPECIFICATION Spec
CONSTANTS
  N = 3
  T = 4
INVARIANTS Batches Genuine Apart Found Counts
CHECK_DEADLOCK FALSE
