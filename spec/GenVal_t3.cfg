SPECIFICATION Spec
CONSTANTS
  Points <- P3
  Depth = 4
  MaxK = 4
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
