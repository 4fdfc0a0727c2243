SPECIFICATION Spec
CONSTANT N = 3
CONSTANT V = {0, 3}
CONSTANT STEPS = 2
INVARIANT Rates
INVARIANT Faces
INVARIANT Conserved
INVARIANT Averaged
CHECK_DEADLOCK FALSE
