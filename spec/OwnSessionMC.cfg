SPECIFICATION Spec
CONSTANTS
  Printing = FALSE
  Packets2 = TRUE
  Sha <- IdSha
INVARIANTS Accepted Mutual NoEarlySend FirstFrame NackOnly ConfirmOnly Ends
PROPERTY Absorbing
CHECK_DEADLOCK FALSE
