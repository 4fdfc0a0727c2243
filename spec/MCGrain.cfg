SPECIFICATION Spec
CONSTANT NX = 3
CONSTANT NY = 3
CONSTANT FX = 1
CONSTANT FY = 1
CONSTANT PER = 0
INVARIANT Grains
INVARIANT Outside
INVARIANT Showing
INVARIANT Soon
CHECK_DEADLOCK FALSE
