CONSTANTS
  N = 3
  Cap = 4
  Envs = 2
  MaxT = 7
  Depth = 0
SPECIFICATION Spec
INVARIANTS TypeOK ExactlyOneEntryEach NoForeignEntries TerminalLast NewestKept CapacityBound
VIEW MCView
CHECK_DEADLOCK FALSE
