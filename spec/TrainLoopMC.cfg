CONSTANTS
  Steps = 4
  MaxLen = 2
  Ckpt = 2
  Hooks = 1
  Faults = TRUE
  Gen = FALSE
  EvalDuring = FALSE
SPECIFICATION Spec
INVARIANTS NoStuck StepsWithinEpisodes ExactSteps SavedAlways CheckpointsExact AllObserved
CHECK_DEADLOCK FALSE
