SPECIFICATION GenSpec
CONSTANTS
  MaxFrames = 24
  Frames1 <- QuickFrames
  Regs <- PlainRegs
  Mode = "C22"
CHECK_DEADLOCK FALSE
