SPECIFICATION Spec
CONSTANTS
  MaxFrames = 4
  Frames1 <- ThoroughFrames
  Regs <- PlainRegs
  Mode = "MC"
INVARIANTS Once InOrder Right NeverArity EndsOnly Complete KeepsUp
PROPERTIES Ends AllHeard
CHECK_DEADLOCK FALSE
