CONSTANTS
  N = 2
  Steps = 3
  Interval = 2
  Succ = 9
  Locked = FALSE
  Faults = FALSE
  Gen = FALSE
  ExtStop = FALSE
SPECIFICATION Spec
INVARIANT Correct
VIEW MCView
CHECK_DEADLOCK FALSE
