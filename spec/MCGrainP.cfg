SPECIFICATION Spec
CONSTANT NX = 3
CONSTANT NY = 3
CONSTANT FX = 0
CONSTANT FY = 1
CONSTANT PER = 1
INVARIANT Grains
INVARIANT Outside
INVARIANT Showing
INVARIANT Soon
CHECK_DEADLOCK FALSE
