SPECIFICATION Spec
CONSTANTS
  Points <- P2n
  Depth = 5
  MaxK = 3
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
