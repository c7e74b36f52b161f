SPECIFICATION Spec
CONSTANTS
  Depth = 6
  Printing = FALSE
  Types = {"cmd", "old", "event"}
  MaxInbox = 2
INVARIANTS EventQuiet IdleQuiet NoSharing Restartable CloseAnytime
PROPERTIES Independent
CHECK_DEADLOCK FALSE
