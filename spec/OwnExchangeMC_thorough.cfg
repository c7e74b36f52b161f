SPECIFICATION Spec
CONSTANTS
  Depth = 8
  MaxEx = 3
  MaxGot = 2
  Concurrent = TRUE
INVARIANTS SentOnce EndedSent NeverSent OneAtATime NoIdle OwnValues AllValues Right InTime
CHECK_DEADLOCK FALSE
