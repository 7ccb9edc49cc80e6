CONSTANTS
  N = 2
  Steps = 4
  Interval = 2
  Succ = 2
  Locked = TRUE
  Faults = TRUE
  Gen = FALSE
  ExtStop = FALSE
SPECIFICATION Spec
INVARIANT Correct
VIEW MCView
CHECK_DEADLOCK FALSE
