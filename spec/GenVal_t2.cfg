SPECIFICATION Spec
CONSTANTS
  Points <- P2
  Depth = 5
  MaxK = 4
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
