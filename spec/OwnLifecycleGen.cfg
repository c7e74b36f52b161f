SPECIFICATION GenSpec
CONSTANTS
  Depth = 24
  Printing = TRUE
  Types = {"cmd", "old", "event"}
  MaxInbox = 3
CHECK_DEADLOCK FALSE
