SPECIFICATION Spec
CONSTANTS
  DT = {1, 2, 5}
  NS = {0, 1, 2, 3, 4}
  ENDS = {4, 9}
  MAXK = 5
INVARIANTS Ordered Never0 EveryN OnlyN Windows Reached Limits Final Same SameOut Filed
PROPERTY Ends
CHECK_DEADLOCK FALSE
