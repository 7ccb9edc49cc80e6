CONSTANTS N = 3
 Start0 = 4
 Batch = 1
 Ui = 2
 Tui = 4
 Ntimes = 1
 Fam = "sac"
 SoftSync = TRUE
 Delay = 1
 Steps = 3
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms UpdateCount HardTarget
CHECK_DEADLOCK FALSE
