SPECIFICATION Spec
CONSTANTS
  Depth = 5
  MaxReads = 3
  MaxMsgs = 3
INVARIANTS Once InOrder NoIdleWait OnTime
PROPERTIES Settled
CHECK_DEADLOCK FALSE
