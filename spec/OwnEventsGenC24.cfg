SPECIFICATION GenSpec
CONSTANTS
  MaxFrames = 24
  Frames1 <- QuickFrames
  Regs <- PlainRegs
  Mode = "C24"
CHECK_DEADLOCK FALSE
