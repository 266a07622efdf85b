SPECIFICATION Spec
CONSTANTS
  Nums <- NumsP
  Dens <- DensP
INVARIANTS Field
CHECK_DEADLOCK FALSE
