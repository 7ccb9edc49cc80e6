CONSTANTS Kinds = {"timelimit", "skip", "noop", "fire", "life", "repeat", "chain", "tslimit"}
 P = 2
 MaxBase = 5
 Gen = FALSE
SPECIFICATION Spec
INVARIANTS Conforms NoStepAfterEnd NeverStuck UserSound
VIEW View
CHECK_DEADLOCK FALSE
