SPECIFICATION Spec
CONSTANTS
  Points <- Pts1w
  Depth = 5
  MaxK = 5
INVARIANTS Quantities Evaluation BatchAgrees Ranges Degenerate
CHECK_DEADLOCK FALSE
