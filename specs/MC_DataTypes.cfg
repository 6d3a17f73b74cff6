SPECIFICATION Spec
INVARIANTS Identity Faithful DistinctColumns
CHECK_DEADLOCK FALSE
