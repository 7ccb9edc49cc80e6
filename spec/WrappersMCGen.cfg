CONSTANTS Kinds = {"timelimit", "skip", "noop", "fire", "life"}
 P = 2
 MaxBase = 5
 Gen = TRUE
SPECIFICATION Spec
INVARIANTS Conforms NoStepAfterEnd NeverStuck UserSound
VIEW View
CHECK_DEADLOCK FALSE
