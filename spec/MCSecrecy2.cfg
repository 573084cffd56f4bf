CONSTANT M = 2
SPECIFICATION Spec
INVARIANT Inv
