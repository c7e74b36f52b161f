INIT Init
NEXT Next
CONSTANT Clauses <- ItemBad
CHECK_DEADLOCK FALSE
