CONSTANTS
  Ops = 4
  Bad = 2
  Gen = FALSE
SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
