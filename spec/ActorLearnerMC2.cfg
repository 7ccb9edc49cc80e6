CONSTANTS
  N = 2
  Steps = 1
  Nu = 1
  Iv = 2
  Rs = 1
  Ti = 1
  Fail = FALSE
  Loads = TRUE
  Bad = 0
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS Correct Stuck
VIEW MCView
CHECK_DEADLOCK FALSE
