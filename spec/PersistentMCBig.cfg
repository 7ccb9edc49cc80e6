CONSTANTS
  MaxItems = 6
  ChunkItems = 2
  MaxSessions = 6
SPECIFICATION Spec
INVARIANTS CrashSafe MetaNeverTorn NoForeign IndexedDataPresent
CHECK_DEADLOCK FALSE
