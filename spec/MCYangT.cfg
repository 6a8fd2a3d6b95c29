SPECIFICATION Spec
CONSTANT MaxTok = 5
INVARIANTS Grammar Separators Truncated Quoting
CHECK_DEADLOCK FALSE
