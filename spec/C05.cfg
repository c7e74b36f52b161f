INIT Init
NEXT Next
CONSTANT Clauses <- C05Clauses
CHECK_DEADLOCK FALSE
