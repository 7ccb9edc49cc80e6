CONSTANTS
  N = 2
  Steps = 5
  MaxLen = 2
  Ckpt = 2
  Hooks = 1
  Faults = TRUE
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS NoStuck NeverStepOver StepCount SavedAlways OwnLength LengthLimited
CHECK_DEADLOCK FALSE
