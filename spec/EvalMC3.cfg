CONSTANTS
  N = 3
  Mode = "episodes"
  K = 2
  MaxLen = 2
  MaxT = 3
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS EpsRight StepsRight Bounded
CHECK_DEADLOCK FALSE
