SPECIFICATION Spec
CONSTANT B = 2
INVARIANT HistoryIndependent
INVARIANT GroupLaws
INVARIANT Unique
INVARIANT Rmul
CHECK_DEADLOCK FALSE
