CONSTANTS LB = 2 NL = 3
SPECIFICATION Spec
INVARIANT Inv
