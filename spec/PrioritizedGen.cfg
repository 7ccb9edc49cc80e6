CONSTANTS
  Cap = 3
  MaxV = 100
  Prios = {1, 3}
  MaxDraw = 2
  Depth = 7
SPECIFICATION Spec
INVARIANT GenInv
CONSTRAINT GenConstraint
CHECK_DEADLOCK FALSE
