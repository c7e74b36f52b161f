SPECIFICATION Spec
CONSTANTS
  Units = 3
  Values = 3
  Connections = 2
INVARIANTS Agrees Complete OwnFrames OwnValues
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
