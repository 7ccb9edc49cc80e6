CONSTANTS NEnv = 2
 UI = 3
 MaxT = 3
 Mb = 2
 Epochs = 2
 Rew = 1
 Gen = TRUE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Bounded
CHECK_DEADLOCK FALSE
