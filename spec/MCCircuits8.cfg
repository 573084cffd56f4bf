SPECIFICATION Spec
CONSTANTS LB = 8
 N = 1
INVARIANT Inv
