CONSTANTS
  Ops = 4
  Bad = 3
  Gen = FALSE
SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
