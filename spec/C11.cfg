INIT Init
NEXT Next
CONSTANTS
  Clauses <- C11Clauses
  Sha <- TableSha
CHECK_DEADLOCK FALSE
