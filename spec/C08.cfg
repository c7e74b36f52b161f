INIT Init
NEXT Next
CONSTANT Clauses <- C08Clauses
CHECK_DEADLOCK FALSE
