SPECIFICATION GenSpec
CONSTANTS
  Depth = 18
  MaxReads = 12
  MaxMsgs = 12
CHECK_DEADLOCK FALSE
