SPECIFICATION Spec
CONSTANTS
  MaxDims = 3
  MaxExt = 4
  MaxBlock = 20
INVARIANTS InOrder Complete SliceFits
CHECK_DEADLOCK FALSE
