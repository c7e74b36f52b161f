INIT Init
NEXT Next
CONSTANT Clauses <- C01Clauses
CHECK_DEADLOCK FALSE
