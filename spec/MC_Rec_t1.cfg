SPECIFICATION Spec
CONSTANTS
  Points <- Pts1
  Depth = 6
  MaxK = 3
INVARIANTS Quantities Evaluation BatchAgrees Ranges Degenerate
CHECK_DEADLOCK FALSE
