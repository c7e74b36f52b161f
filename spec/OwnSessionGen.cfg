SPECIFICATION Spec
CONSTANTS
  Printing = TRUE
  Packets2 = TRUE
  Sha <- IdSha
CHECK_DEADLOCK FALSE
