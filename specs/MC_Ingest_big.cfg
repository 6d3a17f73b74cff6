SPECIFICATION Spec
CONSTANTS
  Known = {"u", "v"}
  Visitors = {"a"}
  Names = {"c"}
  Depth = 5
CONSTRAINT Bound
INVARIANTS SamePerson SameVisitor OneType Typed Sessions Identities Newest
PROPERTY TakesOver
CHECK_DEADLOCK FALSE
