SPECIFICATION Spec
CONSTANTS N = 5
INVARIANTS TypeOK NeverBroken Exact Balanced
PROPERTIES SkipsOnlyIgnored EndsTogether
CHECK_DEADLOCK FALSE
