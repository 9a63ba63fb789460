INIT Init
NEXT Next
CONSTANT MaxEntries = 2
INVARIANTS Involution AdjointReverses Composes SelfAdjoint Distributes Cancels Assembled
CHECK_DEADLOCK FALSE
