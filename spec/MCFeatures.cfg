SPECIFICATION Spec
CONSTANT MaxTok = 5
INVARIANTS Unique Precedence SpacingFree Monotone
CHECK_DEADLOCK FALSE
