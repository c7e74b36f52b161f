INIT Init
NEXT Next
CONSTANTS
  Clauses <- C18Clauses
CHECK_DEADLOCK FALSE
