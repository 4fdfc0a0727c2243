SPECIFICATION Spec
CONSTANT NN = 20
INVARIANT Laws
INVARIANT TablesOK
