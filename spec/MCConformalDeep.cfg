SPECIFICATION Spec
CONSTANTS MaxN = 3 R = 2
CHECK_DEADLOCK FALSE
INVARIANTS
  Null
  Infinity
  Radius
  Distance
  Project
  Normal
  Translation
  Inversion
  Pair
