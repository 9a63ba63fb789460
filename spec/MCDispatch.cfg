SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Steps = 4 Emit = TRUE
INVARIANTS CacheTransparent CacheSound Distinct Done
