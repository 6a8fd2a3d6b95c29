SPECIFICATION Spec
CONSTANTS Names = {"a", "b"} MaxEntries = 3
INVARIANTS Outcome Order Imports
CHECK_DEADLOCK FALSE
