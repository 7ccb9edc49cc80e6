CONSTANTS
  Steps = 4
  MaxLen = 2
  Ckpt = 0
  Hooks = 1
  Faults = FALSE
  Gen = FALSE
  EvalDuring = TRUE
SPECIFICATION Spec
INVARIANTS NoStuck StepsWithinEpisodes ExactSteps SavedAlways CheckpointsExact AllObserved
PROPERTY Terminates
CHECK_DEADLOCK FALSE
