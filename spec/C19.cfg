INIT Init
NEXT Next
CONSTANTS
  Clauses <- C19Clauses
CHECK_DEADLOCK FALSE
