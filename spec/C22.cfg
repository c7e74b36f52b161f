INIT Init
NEXT Next
CONSTANTS
  Clauses <- C22Clauses
CHECK_DEADLOCK FALSE
