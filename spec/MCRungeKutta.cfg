SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
  TreeCount
  ExactOrder
