INIT Init
NEXT Next
CONSTANT Clauses <- C02Clauses
CHECK_DEADLOCK FALSE
