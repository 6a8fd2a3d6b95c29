SPECIFICATION Spec
CONSTANTS Names = {"a", "b"} MaxEntries = 2
INVARIANTS Outcome Order Imports
CHECK_DEADLOCK FALSE
