CONSTANTS
  MaxLen = 2
  Depth = 5
  Ext = {0, 3}
SPECIFICATION Spec
INVARIANTS Bound NegIndex OutOfRange Fifo GenInv
CONSTRAINT GenConstraint
CHECK_DEADLOCK FALSE
