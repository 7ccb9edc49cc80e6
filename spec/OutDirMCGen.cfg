CONSTANTS
  Ops = 4
  Bad = 0
  Gen = TRUE
SPECIFICATION Spec
INVARIANT GenInv
CHECK_DEADLOCK FALSE
