SPECIFICATION Spec
CONSTANTS
  Depth = 7
  MaxReads = 4
  MaxMsgs = 4
INVARIANTS Once InOrder NoIdleWait OnTime
PROPERTIES Settled
CHECK_DEADLOCK FALSE
