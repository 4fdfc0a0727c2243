SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N <- NA
 RATIOS = {1,2,3}
 LO <- LA
INVARIANT Conserved Constant Symmetric
