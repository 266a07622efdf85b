SPECIFICATION Spec
CONSTANTS
  Points <- Pts2
  Depth = 5
  MaxK = 4
INVARIANTS Quantities Evaluation BatchAgrees Ranges Degenerate
CHECK_DEADLOCK FALSE
