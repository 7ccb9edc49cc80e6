CONSTANTS
  MaxLen = 99
  Depth = 6
  Ext = {0, 3}
SPECIFICATION Spec
INVARIANTS Bound NegIndex OutOfRange Fifo
CONSTRAINT GenConstraint
CHECK_DEADLOCK FALSE
