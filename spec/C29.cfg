INIT Init
NEXT Next
CONSTANTS
  Clauses <- CrashClauses
CHECK_DEADLOCK FALSE
