SPECIFICATION LSpec
CONSTANTS
  Objs = {a, b}
  Arrays = {x}
  Contents <- Table
  MaxN = 2
INVARIANT TypeOK
PROPERTIES RefusedNoEffect Isolation BufferFree Admission Monotone
CONSTRAINT Small
CHECK_DEADLOCK FALSE
