SPECIFICATION Spec
CONSTANTS MaxBody = 2 MaxAug = 2 MaxDev = 1
INVARIANTS AugOrder DevOrder Inline Submodule Shorthand Guards Complete Config
CHECK_DEADLOCK FALSE
