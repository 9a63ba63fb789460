SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Steps = 30 Contexts = {1, 2, 3, 4} Emit = TRUE Small = FALSE
INVARIANTS Stable CacheSound ConstSound Done
