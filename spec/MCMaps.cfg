SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS BindOrder Staged Restriction SwapTwice TransposeTwice Symmetrised Derived
