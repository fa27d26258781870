SPECIFICATION Spec
CONSTANTS
  Levels = {1, 8, 23, 25, 26, 30, 31}
  MaxBin = 2
  MaxPre = 1
INVARIANTS SameGrouping InOrder
CHECK_DEADLOCK FALSE
