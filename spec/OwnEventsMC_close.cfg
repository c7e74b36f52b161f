SPECIFICATION Spec
CONSTANTS
  MaxFrames = 3
  Frames1 <- QuickFrames
  Regs <- CloseRegs
  Mode = "MC"
INVARIANTS Once InOrder Right NeverArity EndsOnly Complete KeepsUp
PROPERTIES Ends AllHeard
CHECK_DEADLOCK FALSE
