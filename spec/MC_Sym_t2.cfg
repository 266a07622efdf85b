SPECIFICATION Spec
CONSTANTS
  Points <- P2
  Depth = 4
  MaxK = 4
INVARIANTS OrderFree NameFree Rigid Scaling Replicas Padding Recognised
CHECK_DEADLOCK FALSE
