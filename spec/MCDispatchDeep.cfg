SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Steps = 5 Emit = TRUE
INVARIANTS CacheTransparent CacheSound Distinct Done
