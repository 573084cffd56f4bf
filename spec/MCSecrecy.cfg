CONSTANT M = 4
SPECIFICATION Spec
INVARIANT Inv
