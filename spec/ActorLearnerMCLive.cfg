CONSTANTS
  N = 2
  Steps = 1
  Nu = 1
  Iv = 1
  Rs = 1
  Ti = 1
  Fail = TRUE
  Loads = FALSE
  Bad = 0
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS Correct Stuck
PROPERTY Ends
CHECK_DEADLOCK FALSE
