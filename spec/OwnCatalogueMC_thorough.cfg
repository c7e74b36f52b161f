SPECIFICATION Spec
CONSTANTS
  Years1 <- ThoroughYears
  Days1 = 1500
INVARIANTS WeekRuns DateBack TimeBack DateTimeBack Tables
CHECK_DEADLOCK FALSE
