SPECIFICATION Spec
CONSTANTS
  Depth = 9
  MaxSends = 4
INVARIANTS Held Once DoneWritten CancelledNot Prompt Free
CHECK_DEADLOCK FALSE
