SPECIFICATION Spec
CONSTANTS
  Points <- Pts2
  Depth = 3
  MaxK = 3
INVARIANTS Quantities Evaluation BatchAgrees Ranges Degenerate
CHECK_DEADLOCK FALSE
