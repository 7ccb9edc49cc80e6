CONSTANTS
  N = 2
  Steps = 3
  Nu = 2
  Iv = 1
  Rs = 1
  Ti = 2
  Fail = FALSE
  Loads = FALSE
  Bad = 0
  Gen = TRUE
SPECIFICATION Spec
INVARIANT GenInv

CHECK_DEADLOCK FALSE
