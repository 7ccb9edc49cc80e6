CONSTANTS
  N = 2
  Steps = 5
  MaxLen = 0
  Ckpt = 0
  Hooks = 1
  Faults = FALSE
  Gen = TRUE
SPECIFICATION Spec
INVARIANT GenInv
VIEW GenView
CHECK_DEADLOCK FALSE
