SPECIFICATION Spec
CONSTANTS
  Points <- P1
  Depth = 5
  MaxK = 5
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
