INIT Init
NEXT Next
CONSTANTS
  Clauses <- C13Clauses
CHECK_DEADLOCK FALSE
