SPECIFICATION Spec
CONSTANTS
  Sessions = 4
INVARIANT Secret
CHECK_DEADLOCK FALSE
