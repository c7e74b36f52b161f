INIT Init
NEXT Next
CONSTANTS
  Clauses <- SecretClauses
CHECK_DEADLOCK FALSE
