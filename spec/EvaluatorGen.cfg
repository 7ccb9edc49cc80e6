CONSTANTS
  Interval = 3
  Offset = 1
  MaxT = 10
  Gen = TRUE
  Succ = 9
SPECIFICATION Spec
INVARIANT GenInv
CHECK_DEADLOCK FALSE
