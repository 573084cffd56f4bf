SPECIFICATION Spec
CONSTANTS LB = 5
 N = 1
INVARIANT Inv
