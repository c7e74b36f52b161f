SPECIFICATION Spec
CONSTANTS
  N = 2
  Depth = 6
  MaxEx = 2
  MaxGot = 1
  Kinds = {"cmd", "status"}
INVARIANTS Independent NoWait OneEach OwnValues SentOnce InTime
CHECK_DEADLOCK FALSE
