CONSTANTS Kinds = {"timelimit", "skip", "noop", "fire", "life", "repeat", "chain", "tslimit"}
 P = 3
 MaxBase = 7
 Gen = FALSE
SPECIFICATION Spec
INVARIANTS Conforms NoStepAfterEnd NeverStuck UserSound
VIEW View
CHECK_DEADLOCK FALSE
