CONSTANTS
  N = 2
  Steps = 2
  Nu = 2
  Iv = 1
  Rs = 1
  Ti = 2
  Fail = TRUE
  Loads = FALSE
  Bad = 2
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS Correct Stuck
VIEW MCView
CHECK_DEADLOCK FALSE
