CONSTANTS
  Ops = 4
  Bad = 1
  Gen = FALSE
SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
