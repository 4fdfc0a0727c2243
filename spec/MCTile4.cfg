SPECIFICATION Spec
CONSTANT N = 4
CONSTANT V = {0, 3}
CONSTANT STEPS = 1
INVARIANT Rates
INVARIANT Faces
INVARIANT Conserved
INVARIANT Averaged
CHECK_DEADLOCK FALSE
