INIT Init
NEXT Next
CONSTANTS
  Clauses <- C14Clauses
CHECK_DEADLOCK FALSE
