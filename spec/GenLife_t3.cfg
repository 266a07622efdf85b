SPECIFICATION Spec
CONSTANTS
  Objs = {"a","b"}
  Depth = 3
  Shape = "all"
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
