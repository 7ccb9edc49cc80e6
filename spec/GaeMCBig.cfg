CONSTANTS NEnv = 2
 UI = 5
 MaxT = 5
 Mb = 3
 Epochs = 2
 Rew = 1
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Bounded
CHECK_DEADLOCK FALSE
