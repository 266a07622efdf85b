SPECIFICATION Spec
CONSTANTS
  Points <- P1
  Depth = 3
  MaxK = 3
INVARIANTS OrderFree NameFree Rigid Scaling Replicas Padding Recognised
CHECK_DEADLOCK FALSE
