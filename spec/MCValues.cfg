SPECIFICATION Spec
CONSTANTS MaxCells = 3
          MaxSteps = 6
INVARIANTS Copies Equivalence
PROPERTY Independent
CHECK_DEADLOCK FALSE
