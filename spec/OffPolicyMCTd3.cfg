CONSTANTS N = 2
 Start0 = 2
 Batch = 1
 Ui = 1
 Tui = 4
 Ntimes = 2
 Fam = "td3"
 SoftSync = TRUE
 Delay = 2
 Steps = 3
 Gen = FALSE
 Mut = ""
SPECIFICATION Spec
INVARIANTS Conforms UpdateCount HardTarget
CHECK_DEADLOCK FALSE
