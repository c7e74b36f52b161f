INIT Init
NEXT Next
CONSTANT Clauses <- C06Clauses
CHECK_DEADLOCK FALSE
