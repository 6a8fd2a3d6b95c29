SPECIFICATION Spec
CONSTANTS MaxNodes = 4 Names = {"a", "b"}
INVARIANTS Schemas Datas Unique Contained Parents Stepwise States Splits
CHECK_DEADLOCK FALSE
