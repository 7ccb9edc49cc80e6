CONSTANTS
  N = 2
  Mode = "steps"
  K = 4
  MaxLen = 0
  MaxT = 5
  Gen = TRUE
SPECIFICATION Spec
INVARIANT GenInv
CHECK_DEADLOCK FALSE
