CONSTANTS N = 1
 Start0 = 2
 Batch = 1
 Ui = 3
 Tui = 3
 Ntimes = 2
 Fam = "ddpg"
 SoftSync = TRUE
 Delay = 1
 Steps = 6
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms UpdateCount HardTarget
CHECK_DEADLOCK FALSE
