SPECIFICATION Spec
INVARIANTS Truth Kinds Lazy Function Conversion Selection Valid
CHECK_DEADLOCK FALSE
