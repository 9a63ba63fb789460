SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip Malformed Tokenised Denotes Products Transposed Strings Products2 Tables
