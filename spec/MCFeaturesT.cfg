SPECIFICATION Spec
CONSTANT MaxTok = 6
INVARIANTS Unique Precedence SpacingFree Monotone
CHECK_DEADLOCK FALSE
