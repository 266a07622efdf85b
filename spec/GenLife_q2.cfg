SPECIFICATION Spec
CONSTANTS
  Objs = {"a","b"}
  Depth = 3
  Shape = "few"
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
