INIT Init
NEXT Next
CONSTANT MaxDigits = 3
INVARIANTS Typed Conserved Function LeadingZeros Texts
CHECK_DEADLOCK FALSE
