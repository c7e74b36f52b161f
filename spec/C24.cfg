INIT Init
NEXT Next
CONSTANTS
  Clauses <- C24Clauses
CHECK_DEADLOCK FALSE
