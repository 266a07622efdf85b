SPECIFICATION Spec
CONSTANTS
  Points <- Pts2w
  Depth = 4
  MaxK = 4
INVARIANTS Quantities Evaluation BatchAgrees Ranges Degenerate
CHECK_DEADLOCK FALSE
