INIT Init
NEXT Next
CONSTANTS
  Clauses <- C21Clauses
CHECK_DEADLOCK FALSE
