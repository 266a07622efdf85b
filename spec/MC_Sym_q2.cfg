SPECIFICATION Spec
CONSTANTS
  Points <- P2
  Depth = 3
  MaxK = 3
INVARIANTS OrderFree NameFree Rigid Scaling Replicas Padding Recognised
CHECK_DEADLOCK FALSE
