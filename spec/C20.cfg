INIT Init
NEXT Next
CONSTANTS
  Clauses <- C20Clauses
CHECK_DEADLOCK FALSE
