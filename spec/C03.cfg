INIT Init
NEXT Next
CONSTANT Clauses <- C03Clauses
CHECK_DEADLOCK FALSE
