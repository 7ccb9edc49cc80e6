CONSTANTS
  N = 2
  Mode = "episodes"
  K = 3
  MaxLen = 0
  MaxT = 5
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS EpsRight StepsRight Bounded
CHECK_DEADLOCK FALSE
