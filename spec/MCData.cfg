INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Idempotent Conservative Parts KeepsValid Transparent Located Scopes Types Admitted Emit
