SPECIFICATION Spec
CONSTANTS N = 6
INVARIANTS TypeOK NeverBroken Exact Balanced
PROPERTIES SkipsOnlyIgnored
CHECK_DEADLOCK FALSE
