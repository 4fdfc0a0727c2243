SPECIFICATION Spec
CONSTANTS
  DT = {1, 3}
  NS = {0, 1, 2, 3}
  ENDS = {7}
  MAXK = 4
INVARIANTS Ordered Never0 EveryN OnlyN Windows Reached Limits Final Same SameOut Filed
PROPERTY Ends
CHECK_DEADLOCK FALSE
