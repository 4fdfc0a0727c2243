SPECIFICATION Spec
CONSTANT B = 1
INVARIANT HistoryIndependent
INVARIANT GroupLaws
INVARIANT Unique
INVARIANT Rmul
CHECK_DEADLOCK FALSE
