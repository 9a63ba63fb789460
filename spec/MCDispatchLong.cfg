SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Steps = 16 Emit = TRUE
INVARIANTS CacheTransparent CacheSound Distinct Done
