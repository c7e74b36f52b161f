SPECIFICATION Spec
CONSTANTS
  N = 3
  Depth = 7
  MaxEx = 2
  MaxGot = 1
  Kinds = {"cmd", "status", "one"}
INVARIANTS Independent NoWait OneEach OwnValues SentOnce InTime
CHECK_DEADLOCK FALSE
