SPECIFICATION Spec
CONSTANTS LB = 2
 N = 3
INVARIANT Inv
