INIT Init
NEXT Next
CONSTANT Clauses <- C04Clauses
CHECK_DEADLOCK FALSE
