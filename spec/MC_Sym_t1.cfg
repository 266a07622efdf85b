SPECIFICATION Spec
CONSTANTS
  Points <- P1
  Depth = 5
  MaxK = 4
INVARIANTS OrderFree NameFree Rigid Scaling Replicas Padding Recognised
CHECK_DEADLOCK FALSE
