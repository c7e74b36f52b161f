INIT Init
NEXT Next
CONSTANT Clauses <- C07Clauses
CHECK_DEADLOCK FALSE
