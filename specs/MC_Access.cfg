SPECIFICATION Spec
INVARIANTS Nobody Root Elsewhere OthersOrg Server
CHECK_DEADLOCK FALSE
