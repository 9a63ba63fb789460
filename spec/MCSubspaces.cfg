SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Listing SetLaws Distributive Closed ExpClosed Squares Names Simple
