SPECIFICATION Spec
CONSTANTS Rows = {1,2,3,4} L0 = 1 MaxCrash = 2
INVARIANT Visible Durable Backed
CHECK_DEADLOCK FALSE
