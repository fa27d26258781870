SPECIFICATION Spec
CONSTANTS
  Levels = {3, 25, 30}
  MaxBin = 3
  MaxPre = 1
INVARIANTS SameGrouping InOrder
CHECK_DEADLOCK FALSE
