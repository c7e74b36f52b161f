INIT Init
NEXT Next
CONSTANTS
  Clauses <- C10Clauses
  Sha <- TableSha
CHECK_DEADLOCK FALSE
