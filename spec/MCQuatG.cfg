SPECIFICATION Spec
INVARIANT Closed
INVARIANT Inverses
