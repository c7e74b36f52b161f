SPECIFICATION Spec
CONSTANTS
  Bases <- MCBases
  Parms <- MCParms
  MaxParams = 5
  HexAlphabet = {48, 57, 97, 102, 65, 70}
  MaxHex = 5
INVARIANTS Decomposes Classified Disjoint Lossless
CHECK_DEADLOCK FALSE
