CONSTANTS
  N = 2
  Steps = 2
  Interval = 1
  Succ = 9
  Locked = TRUE
  Faults = FALSE
  Gen = FALSE
  ExtStop = TRUE
SPECIFICATION Spec
INVARIANT Correct
PROPERTY Finishes
CHECK_DEADLOCK FALSE
