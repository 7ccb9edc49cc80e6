CONSTANTS
  N = 2
  Mode = "episodes"
  K = 3
  MaxLen = 0
  MaxT = 5
  Gen = TRUE
SPECIFICATION Spec
INVARIANT GenInv
CHECK_DEADLOCK FALSE
