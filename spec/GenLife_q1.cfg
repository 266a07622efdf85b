SPECIFICATION Spec
CONSTANTS
  Objs = {"a"}
  Depth = 3
  Shape = "all"
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
