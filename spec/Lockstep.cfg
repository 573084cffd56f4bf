SPECIFICATION Spec
CONSTANTS
  N = 3
  L = 2
INVARIANTS NeverStuck SameHistory AllDelivered
