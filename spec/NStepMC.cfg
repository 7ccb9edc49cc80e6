CONSTANTS
  G = 2
  MaxN = 4
  Rewards = {0, 1, 5}
SPECIFICATION Spec
INVARIANTS Compose EndState GenInv
CHECK_DEADLOCK FALSE
