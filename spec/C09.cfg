INIT Init
NEXT Next
CONSTANT Clauses <- C09Clauses
CHECK_DEADLOCK FALSE
