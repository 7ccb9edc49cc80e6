CONSTANTS
  N = 3
  Cap = 0
  Envs = 2
  MaxT = 6
  Depth = 0
SPECIFICATION Spec
INVARIANTS TypeOK ExactlyOneEntryEach NoForeignEntries TerminalLast NewestKept CapacityBound
VIEW MCView
CHECK_DEADLOCK FALSE
