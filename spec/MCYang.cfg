SPECIFICATION Spec
CONSTANT MaxTok = 4
INVARIANTS Grammar Separators Truncated Quoting
CHECK_DEADLOCK FALSE
