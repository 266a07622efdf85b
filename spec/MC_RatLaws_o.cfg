SPECIFICATION Spec
CONSTANTS
  Nums <- NumsO
  Dens <- DensO
INVARIANTS Field Functions Pi
CHECK_DEADLOCK FALSE
