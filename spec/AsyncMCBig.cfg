CONSTANTS
  N = 3
  Steps = 3
  Interval = 2
  Succ = 9
  Locked = TRUE
  Faults = FALSE
  Gen = FALSE
  ExtStop = TRUE
SPECIFICATION Spec
INVARIANT Correct
VIEW MCView
CHECK_DEADLOCK FALSE
