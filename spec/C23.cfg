INIT Init
NEXT Next
CONSTANTS
  Clauses <- C23Clauses
CHECK_DEADLOCK FALSE
