CONSTANTS NEnv = 2
 UI = 4
 MaxT = 4
 Mb = 3
 Epochs = 2
 Rew = 1
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms Bounded
CHECK_DEADLOCK FALSE
