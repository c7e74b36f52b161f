SPECIFICATION Spec
CONSTANTS
  Sessions = 3
INVARIANT Secret
CHECK_DEADLOCK FALSE
