SPECIFICATION Spec
CONSTANTS
  Alphabet = {48, 49, 53, 55, 35, 120}
  MaxLen = 4
  Clients = {1, 2}
INVARIANTS OneKind Narrower NoneLost Addressed
CHECK_DEADLOCK FALSE
