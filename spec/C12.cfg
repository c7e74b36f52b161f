INIT Init
NEXT Next
CONSTANTS
  Clauses <- C12Clauses
CHECK_DEADLOCK FALSE
