CONSTANTS
  N = 2
  Cap = 3
  Envs = 2
  MaxT = 5
  Depth = 0
SPECIFICATION Spec
INVARIANTS TypeOK ExactlyOneEntryEach NoForeignEntries TerminalLast NewestKept CapacityBound
VIEW MCView
CHECK_DEADLOCK FALSE
