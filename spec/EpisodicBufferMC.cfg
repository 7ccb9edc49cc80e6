CONSTANTS
  Cap = 3
  Envs = 2
  MaxT = 6
  Depth = 0
SPECIFICATION Spec
INVARIANTS WholeOldestDropped MaximalKept OneEnvPerEpisode EveryTransitionOnce
VIEW MCView
CHECK_DEADLOCK FALSE
