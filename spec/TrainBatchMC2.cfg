CONSTANTS
  N = 2
  Steps = 3
  MaxLen = 0
  Ckpt = 0
  Hooks = 1
  Faults = FALSE
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS NoStuck NeverStepOver StepCount SavedAlways OwnLength
PROPERTY Terminates
CHECK_DEADLOCK FALSE
