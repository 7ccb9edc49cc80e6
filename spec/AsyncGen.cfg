CONSTANTS
  N = 2
  Steps = 3
  Interval = 2
  Succ = 9
  Locked = TRUE
  Faults = FALSE
  Gen = TRUE
  ExtStop = FALSE
SPECIFICATION Spec
INVARIANT GenInv
CHECK_DEADLOCK FALSE
