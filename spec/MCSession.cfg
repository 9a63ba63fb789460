SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Steps = 4 Contexts = {1, 2} Emit = FALSE Small = TRUE
INVARIANTS Stable CacheSound ConstSound Functional
