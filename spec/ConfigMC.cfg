SPECIFICATION Spec
INVARIANTS Exact Independent
PROPERTIES NothingLost Ends
CHECK_DEADLOCK FALSE
