SPECIFICATION Spec
CONSTANTS MaxCells = 4
          MaxSteps = 7
INVARIANTS Copies Equivalence
PROPERTY Independent
CHECK_DEADLOCK FALSE
