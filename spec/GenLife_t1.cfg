SPECIFICATION Spec
CONSTANTS
  Objs = {"a"}
  Depth = 4
  Shape = "all"
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
