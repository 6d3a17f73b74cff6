SPECIFICATION Spec
CONSTANT MaxSteps = 5
INVARIANTS Unique NoGhosts
PROPERTIES OnlyGenuine OnlyRefresh Rotated RotatedRefresh KnowsPassword PasswordMoves KeysMove
CHECK_DEADLOCK FALSE
