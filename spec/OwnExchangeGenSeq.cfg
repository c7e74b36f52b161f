SPECIFICATION GenSpec
CONSTANTS
  Depth = 20
  MaxEx = 8
  MaxGot = 3
  Concurrent = FALSE
CHECK_DEADLOCK FALSE
