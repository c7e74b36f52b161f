SPECIFICATION GenSpec
CONSTANTS
  Alphabet = {42, 35, 49, 32, 120}
  MaxLen = 300
  MaxPacket = 7
  Script = TRUE
  BadOneIn = 40
CHECK_DEADLOCK FALSE
