SPECIFICATION Spec
CONSTANTS MaxBody = 3 MaxAug = 3 MaxDev = 2
INVARIANTS AugOrder DevOrder Inline Submodule Shorthand Guards Complete Config
CHECK_DEADLOCK FALSE
