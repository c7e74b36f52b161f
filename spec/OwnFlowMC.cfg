SPECIFICATION Spec
CONSTANTS
  Depth = 6
  MaxSends = 3
INVARIANTS Held Once DoneWritten CancelledNot Prompt Free
CHECK_DEADLOCK FALSE
