INIT Init
NEXT Next
CONSTANTS
  Clauses <- CustomClauses
CHECK_DEADLOCK FALSE
