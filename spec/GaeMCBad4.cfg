CONSTANTS NEnv = 2
 UI = 3
 MaxT = 4
 Mb = 3
 Epochs = 2
 Rew = 1
 Gen = FALSE
 Mut = "early"
SPECIFICATION Spec
INVARIANTS Conforms Bounded
CHECK_DEADLOCK FALSE
