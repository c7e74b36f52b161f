INIT Init
NEXT Next
CONSTANTS
  Clauses <- C25Clauses
CHECK_DEADLOCK FALSE
