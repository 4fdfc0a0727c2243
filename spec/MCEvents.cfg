CONSTANTS
  MaxN = 4
  MaxDt = 3
  MaxT = 7
SPECIFICATION Spec
INVARIANTS Once Inactive Cycle Time Final First
CHECK_DEADLOCK FALSE
