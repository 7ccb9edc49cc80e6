CONSTANTS
  Ops = 6
  Bad = 0
  Gen = FALSE
SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
