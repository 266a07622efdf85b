SPECIFICATION Spec
CONSTANTS
  Objs = {"a","b"}
  Depth = 4
  Shape = "few"
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
