SPECIFICATION Spec
CONSTANTS Rows = {1,2,3} L0 = 1 MaxCrash = 1
INVARIANT Visible Durable Backed
CHECK_DEADLOCK FALSE
