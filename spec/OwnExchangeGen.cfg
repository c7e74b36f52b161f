SPECIFICATION GenSpec
CONSTANTS
  Depth = 20
  MaxEx = 8
  MaxGot = 3
  Concurrent = TRUE
CHECK_DEADLOCK FALSE
