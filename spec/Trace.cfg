CONSTANTS
  TInit <- Start
  TVerdict <- Verdict
  TApply <- After
SPECIFICATION TraceSpec
INVARIANT NoErr
VIEW TraceView
CHECK_DEADLOCK FALSE
