SPECIFICATION Spec
CONSTANTS MaxNodes = 3 Names = {"a", "input"}
INVARIANTS Schemas Datas Unique Contained Parents Stepwise States Splits
CHECK_DEADLOCK FALSE
