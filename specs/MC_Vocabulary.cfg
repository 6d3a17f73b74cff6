SPECIFICATION Spec
INVARIANTS SameMeaning Distinct NoValueRefused
CHECK_DEADLOCK FALSE
