SPECIFICATION GenSpec
CONSTANTS
  N = 3
  Depth = 30
  MaxEx = 5
  MaxGot = 3
  Kinds = {"cmd", "status", "dims", "one"}
CHECK_DEADLOCK FALSE
