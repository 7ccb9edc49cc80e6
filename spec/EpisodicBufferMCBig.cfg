CONSTANTS
  Cap = 4
  Envs = 2
  MaxT = 8
  Depth = 0
SPECIFICATION Spec
INVARIANTS WholeOldestDropped MaximalKept OneEnvPerEpisode EveryTransitionOnce
VIEW MCView
CHECK_DEADLOCK FALSE
