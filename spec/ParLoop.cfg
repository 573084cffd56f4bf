SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  MaxGrain = 4
  Workers = {w1, w2, w3}
INVARIANTS AtMostOnce AllOnce Reduced
PROPERTY Terminates
CHECK_DEADLOCK FALSE
