SPECIFICATION Spec
CONSTANT MaxIds = 3
INVARIANTS Strict Transitive Contains Least BothEnds AllBases
PROPERTY Monotone
CHECK_DEADLOCK FALSE
