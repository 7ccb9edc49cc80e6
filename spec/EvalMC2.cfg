CONSTANTS
  N = 2
  Mode = "steps"
  K = 3
  MaxLen = 2
  MaxT = 5
  Gen = FALSE
SPECIFICATION Spec
INVARIANTS EpsRight StepsRight Bounded
CHECK_DEADLOCK FALSE
