CONSTANTS
  MaxItems = 4
  ChunkItems = 2
  MaxSessions = 4
SPECIFICATION Spec
INVARIANTS CrashSafe MetaNeverTorn NoForeign IndexedDataPresent
CHECK_DEADLOCK FALSE
