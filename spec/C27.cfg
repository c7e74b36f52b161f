INIT Init
NEXT Next
CONSTANTS
  Clauses <- ClientsClauses
CHECK_DEADLOCK FALSE
