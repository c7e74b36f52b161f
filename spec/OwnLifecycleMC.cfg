SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Printing = FALSE
  Types = {"cmd", "event"}
  MaxInbox = 2
INVARIANTS EventQuiet IdleQuiet NoSharing Restartable CloseAnytime
PROPERTIES Independent
CHECK_DEADLOCK FALSE
