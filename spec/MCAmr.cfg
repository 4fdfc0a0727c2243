SPECIFICATION Spec
CONSTANT M = 3
INVARIANT Volume
INVARIANT Refinement
INVARIANT Once
INVARIANT Mid
CHECK_DEADLOCK FALSE
