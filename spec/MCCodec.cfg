INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Laws Emit
PROPERTIES Persist
