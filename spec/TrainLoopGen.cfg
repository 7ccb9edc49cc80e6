CONSTANTS
  Steps = 5
  MaxLen = 0
  Ckpt = 0
  Hooks = 0
  Faults = FALSE
  Gen = TRUE
  EvalDuring = FALSE
SPECIFICATION Spec
INVARIANT GenInv
VIEW GenView
CHECK_DEADLOCK FALSE
