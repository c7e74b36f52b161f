SPECIFICATION Spec
CONSTANTS
  Years1 <- QuickYears
  Days1 = 800
INVARIANTS WeekRuns DateBack TimeBack DateTimeBack Tables
CHECK_DEADLOCK FALSE
