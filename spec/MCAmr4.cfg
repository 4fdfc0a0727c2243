SPECIFICATION Spec
CONSTANT M = 4
INVARIANT Volume
INVARIANT Refinement
INVARIANT Once
INVARIANT Mid
CHECK_DEADLOCK FALSE
