SPECIFICATION Spec
CONSTANTS
  Units = 6
  Values = 5
  Connections = 3
INVARIANTS Agrees Complete OwnFrames OwnValues
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
