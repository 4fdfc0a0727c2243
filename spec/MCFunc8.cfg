SPECIFICATION Spec
CONSTANT NN = 8
INVARIANT Laws
INVARIANT TablesOK
