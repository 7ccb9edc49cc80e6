CONSTANTS
  Interval = 3
  Offset = 2
  MaxT = 12
  Gen = FALSE
  Succ = 2
SPECIFICATION Spec
INVARIANTS OncePerInterval BestIsMax StopRight
CHECK_DEADLOCK FALSE
