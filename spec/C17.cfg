INIT Init
NEXT Next
CONSTANTS
  Clauses <- ExchangeClauses
CHECK_DEADLOCK FALSE
