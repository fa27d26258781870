SPECIFICATION Spec
CONSTANTS
  Levels = {1, 3, 5, 6, 7, 8, 22, 23, 25, 26, 30, 31, 32}
  MaxBin = 3
  MaxPre = 0
INVARIANTS SameGrouping InOrder
CHECK_DEADLOCK FALSE
