SPECIFICATION GenSpec
CONSTANTS
  Depth = 20
  MaxSends = 9
CHECK_DEADLOCK FALSE
