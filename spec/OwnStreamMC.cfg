SPECIFICATION Spec
CONSTANTS
  Alphabet = {42, 35, 49, 32, 120}
  MaxLen = 7
  MaxPacket = 3
  Script = FALSE
  BadOneIn = 0
INVARIANTS Segmentation Complete Pending Contained
CHECK_DEADLOCK FALSE
