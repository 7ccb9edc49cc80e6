CONSTANTS
  N = 2
  Cap = 0
  Envs = 2
  MaxT = 100
  Depth = 5
SPECIFICATION Spec
INVARIANT GenInv
CONSTRAINT GenConstraint
CHECK_DEADLOCK FALSE
