SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OneObject Known Inside
